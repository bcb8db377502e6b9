From 45f8384aff9504a047bec6efc8a469632071138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:43 +0000
Subject: [PATCH 01/21] fix: check the size of each decoded planar band instead
 of asserting

Planar tiles of 1-bit samples tripped the debug assertion (it counted whole
bytes per sample), and a band of the wrong length was either a panic or shifted
every following band.
---
 src/tile.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/tile.rs b/src/tile.rs
index 5b586b2..f1c3fec 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -2,7 +2,7 @@ use bytes::Bytes;
 
 use crate::array::Array;
 use crate::decoder::DecoderRegistry;
-use crate::error::{AsyncTiffResult, TiffError, TiffUnsupportedError};
+use crate::error::{AsyncTiffError, AsyncTiffResult, TiffError, TiffUnsupportedError};
 use crate::ifd::CompressedBytes;
 use crate::predictor::{fix_endianness, unpredict_float, unpredict_hdiff};
 use crate::reader::Endianness;
@@ -100,10 +100,11 @@ impl Tile {
                 self.lerc_parameters.as_deref(),
             )?,
             CompressedBytes::Planar(band_bytes) => {
-                let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
-                let total_size =
-                    band_bytes.len() * tile_width * (self.height as usize) * bytes_per_sample;
-                let mut result = Vec::with_capacity(total_size);
+                // Samples narrower than a byte are packed, so the size of a band is counted in bits.
+                let band_size =
+                    (tile_width as u128 * self.height as u128 * bits_per_sample as u128)
+                        .div_ceil(8);
+                let mut result = Vec::new();
 
                 for band_data in band_bytes {
                     let decoded_band = decoder.decode_tile(
@@ -114,10 +115,15 @@ impl Tile {
                         bits_per_sample,
                         self.lerc_parameters.as_deref(),
                     )?;
+                    if decoded_band.len() as u128 != band_size {
+                        return Err(AsyncTiffError::General(format!(
+                            "Decoded band has {} bytes, expected {band_size}",
+                            decoded_band.len()
+                        )));
+                    }
                     result.extend_from_slice(&decoded_band);
                 }
 
-                debug_assert_eq!(result.len(), total_size);
                 result
             }
         };
-- 
2.43.0


From dd79e2b730fca0237ed34f90f90baac82aeba169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:43 +0000
Subject: [PATCH 02/21] fix: reverse predictors of planar tiles band by band

Both predictors were reversed as if the bands of a planar tile were interleaved,
so every planar tile with a predictor and more than one band decoded to wrong
pixels.
---
 src/tile.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/tile.rs b/src/tile.rs
index f1c3fec..1abbc49 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -128,6 +128,13 @@ impl Tile {
             }
         };
 
+        // The bands of a planar tile are predicted independently of each other, so that a row holds
+        // a single sample per pixel.
+        let samples_per_row_pixel = match &self.compressed_bytes {
+            CompressedBytes::Chunky(_) => samples,
+            CompressedBytes::Planar(_) => 1,
+        };
+
         // Apply predictor on the full encoded tile width, then crop afterward.
         let decoded = match self.predictor {
             Predictor::None => {
@@ -137,13 +144,16 @@ impl Tile {
             Predictor::Horizontal => unpredict_hdiff(
                 decoded_tile,
                 self.endianness,
-                samples,
+                samples_per_row_pixel,
                 bits_per_sample,
                 tile_width,
             ),
-            Predictor::FloatingPoint => {
-                unpredict_float(decoded_tile, samples, bits_per_sample, tile_width)?
-            }
+            Predictor::FloatingPoint => unpredict_float(
+                decoded_tile,
+                samples_per_row_pixel,
+                bits_per_sample,
+                tile_width,
+            )?,
         };
 
         let shape = infer_shape(
-- 
2.43.0


From ac8612aecbfe8a7cfa2fa23f44bb55956af13d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:18 +0000
Subject: [PATCH 03/21] fix: return an error for predicted tiles that are not
 whole rows

A tile whose decompressed size is not a multiple of the row size (corrupt or
truncated data, zero tile width or samples) panicked while the predictor was
reversed, as did samples wider than 64 bits.
---
 src/predictor.rs | 24 ++++++++++++++++++++++--
 src/tile.rs      |  2 +-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/predictor.rs b/src/predictor.rs
index c272ab4..c04ac74 100644
--- a/src/predictor.rs
+++ b/src/predictor.rs
@@ -51,15 +51,24 @@ pub(crate) fn fix_endianness(buffer: &mut [u8], byte_order: Endianness, bits_per
 /// not the cropped valid width of an edge tile.
 ///
 /// Fixes endianness first, then reverses the per-sample delta encoding.
+///
+/// Errors if the buffer is not a whole number of rows, or for samples wider than 64 bits.
 pub(crate) fn unpredict_hdiff(
     mut buffer: Vec<u8>,
     endianness: Endianness,
     samples: usize,
     bits_per_sample: u16,
     tile_width: usize,
-) -> Vec<u8> {
+) -> AsyncTiffResult<Vec<u8>> {
+    if bits_per_sample > 64 {
+        return Err(AsyncTiffError::General(format!(
+            "Horizontal predictor not supported for {bits_per_sample}-bit samples"
+        )));
+    }
+
     let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
     let row_stride = tile_width * samples * bytes_per_sample;
+    check_whole_rows(buffer.len(), row_stride)?;
 
     fix_endianness(&mut buffer, endianness, bits_per_sample);
 
@@ -67,7 +76,17 @@ pub(crate) fn unpredict_hdiff(
         rev_hpredict_row(row, bits_per_sample, samples);
     }
 
-    buffer
+    Ok(buffer)
+}
+
+/// Check that a decoded buffer consists of whole, non-empty rows of `row_stride` bytes.
+fn check_whole_rows(buffer_len: usize, row_stride: usize) -> AsyncTiffResult<()> {
+    if row_stride == 0 || !buffer_len.is_multiple_of(row_stride) {
+        return Err(AsyncTiffError::General(format!(
+            "Decoded tile of {buffer_len} bytes is not a whole number of {row_stride}-byte rows"
+        )));
+    }
+    Ok(())
 }
 
 /// Reverse one row of horizontal differencing, dispatched by bit depth.
@@ -120,6 +139,7 @@ pub(crate) fn unpredict_float(
 ) -> AsyncTiffResult<Vec<u8>> {
     let bytes_per_sample = (bits_per_sample as usize) / 8;
     let row_stride = tile_width * samples * bytes_per_sample;
+    check_whole_rows(buffer.len(), row_stride)?;
     let mut out = vec![0u8; buffer.len()];
 
     for (in_row, out_row) in buffer
diff --git a/src/tile.rs b/src/tile.rs
index 1abbc49..98c16bc 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -147,7 +147,7 @@ impl Tile {
                 samples_per_row_pixel,
                 bits_per_sample,
                 tile_width,
-            ),
+            )?,
             Predictor::FloatingPoint => unpredict_float(
                 decoded_tile,
                 samples_per_row_pixel,
-- 
2.43.0


From df5cc026b6b2dc287d2428928105dfbb6e0a2b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:18 +0000
Subject: [PATCH 04/21] fix: return an error for corrupt LZW data instead of
 panicking

---
 src/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 0266d5d..0929566 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -240,7 +240,9 @@ impl Decoder for LZWDecoder {
     ) -> AsyncTiffResult<Vec<u8>> {
         // https://github.com/image-rs/image-tiff/blob/90ae5b8e54356a35e266fb24e969aafbcb26e990/src/decoder/stream.rs#L147
         let mut decoder = weezl::decode::Decoder::with_tiff_size_switch(weezl::BitOrder::Msb, 8);
-        let decoded = decoder.decode(&buffer).expect("failed to decode LZW data");
+        let decoded = decoder
+            .decode(&buffer)
+            .map_err(|e| AsyncTiffError::General(format!("LZW decode failed: {e}")))?;
         Ok(decoded)
     }
 }
-- 
2.43.0


From e6657caec12f9ffe4e224a0349195f44dba2d00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:18 +0000
Subject: [PATCH 05/21] fix: decode 16-bit JPEG2000 tiles

bytemuck::cast_vec from u16 to u8 always panics because the alignment of the two
types differs.
---
 src/decoder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 0929566..f16a0e5 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -276,7 +276,10 @@ impl Decoder for JPEG2kDecoder {
             jpeg2k::ImagePixelData::L16(items)
             | jpeg2k::ImagePixelData::La16(items)
             | jpeg2k::ImagePixelData::Rgb16(items)
-            | jpeg2k::ImagePixelData::Rgba16(items) => Ok(bytemuck::cast_vec(items)),
+            | jpeg2k::ImagePixelData::Rgba16(items) => {
+                // A Vec<u16> cannot be reinterpreted as a Vec<u8>: the allocation's alignment differs
+                Ok(bytemuck::cast_slice(&items).to_vec())
+            }
         }
     }
 }
-- 
2.43.0


From d0b6a3a1b28467bd28a62d31123a189723292e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:30 +0000
Subject: [PATCH 06/21] fix: return an error for JPEG tables too short to hold
 their markers

---
 src/decoder.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index f16a0e5..9d4a510 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -7,7 +7,9 @@ use std::io::{Cursor, Read};
 use bytes::Bytes;
 use flate2::bufread::ZlibDecoder;
 
-use crate::error::{AsyncTiffError, AsyncTiffResult, TiffError, TiffUnsupportedError};
+use crate::error::{
+    AsyncTiffError, AsyncTiffResult, TiffError, TiffFormatError, TiffUnsupportedError,
+};
 use crate::tags::{Compression, PhotometricInterpretation};
 
 /// A registry of decoders.
@@ -384,8 +386,11 @@ fn decode_modern_jpeg(
             let mut reader = reader;
             reader.read_exact(&mut [0; 2])?;
 
-            Box::new(Cursor::new(&jpeg_tables[..jpeg_tables.len() - 2]).chain(reader))
-                as Box<dyn Read>
+            let tables_end = jpeg_tables
+                .len()
+                .checked_sub(2)
+                .ok_or(TiffError::FormatError(TiffFormatError::InvalidTag))?;
+            Box::new(Cursor::new(&jpeg_tables[..tables_end]).chain(reader)) as Box<dyn Read>
         }
         None => Box::new(reader),
     };
-- 
2.43.0


From ee05f66003cc72d6a2fbf8e202ebc3d5fc83421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:31 +0000
Subject: [PATCH 07/21] fix: return an error when the element count of a tile
 overflows

---
 src/array.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/array.rs b/src/array.rs
index 2acfea0..ae592c5 100644
--- a/src/array.rs
+++ b/src/array.rs
@@ -29,7 +29,12 @@ impl Array {
         shape: [usize; 3],
         data_type: Option<DataType>,
     ) -> AsyncTiffResult<Self> {
-        let expected_len = shape[0] * shape[1] * shape[2];
+        let expected_len = shape[0]
+            .checked_mul(shape[1])
+            .and_then(|len| len.checked_mul(shape[2]))
+            .ok_or_else(|| {
+                AsyncTiffError::General(format!("Array shape {shape:?} is too large"))
+            })?;
 
         let typed_data = if data_type == Some(DataType::Bool) {
             let required_bytes = expected_len.div_ceil(8);
-- 
2.43.0


From 84979c8f1e41f6b686978de381a9fdada17dbaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:20 +0000
Subject: [PATCH 08/21] fix: reject tile positions outside the tile grid

A column past the end of a row silently returned the tile of another row, and any
position without an entry in TileOffsets/TileByteCounts, or whose range overflows,
panicked. These now have no byte range, and fetching them is a TileIndexError.
---
 src/ifd.rs | 55 +++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 4303248..ee2142a 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -720,11 +720,15 @@ impl ImageFileDirectory {
     }
 
     /// Find the byte range(s) for the tile located at `x` column and `y` row.
+    ///
+    /// Returns `None` if this is not a tiled TIFF or if there is no such tile.
     pub fn tile_byte_range(&self, x: usize, y: usize) -> Option<TileByteRange> {
         TileByteRange::from_ifd_tile(self, x, y)
     }
 
     /// Find the byte ranges for the tiles located at `x` column and `y` row.
+    ///
+    /// Returns `None` if this is not a tiled TIFF or if any of the tiles does not exist.
     pub fn tiles_byte_ranges(&self, xy: &[(usize, usize)]) -> Option<TilesByteRanges> {
         TilesByteRanges::from_ifd_tiles(self, xy)
     }
@@ -741,7 +745,7 @@ impl ImageFileDirectory {
     ) -> AsyncTiffResult<Tile> {
         let byte_ranges = self
             .tile_byte_range(x, y)
-            .ok_or(AsyncTiffError::General("Not a tiled TIFF".to_string()))?;
+            .ok_or_else(|| self.missing_tile_error(&[(x, y)]))?;
         let compressed_bytes = byte_ranges.into_fetch(reader).await?;
         Ok(compressed_bytes.into_tile(x, y, self))
     }
@@ -754,7 +758,7 @@ impl ImageFileDirectory {
     ) -> AsyncTiffResult<Vec<Tile>> {
         let byte_ranges = self
             .tiles_byte_ranges(xy)
-            .ok_or(AsyncTiffError::General("Not a tiled TIFF".to_string()))?;
+            .ok_or_else(|| self.missing_tile_error(xy))?;
         let compressed_bytes = byte_ranges.into_fetch(reader).await?;
         Ok(compressed_bytes
             .into_iter()
@@ -763,11 +767,30 @@ impl ImageFileDirectory {
             .collect())
     }
 
+    /// The error for a request of tiles that have no byte range.
+    fn missing_tile_error(&self, xy: &[(usize, usize)]) -> AsyncTiffError {
+        let is_tiled = self.tile_count().is_some()
+            && self.tile_offsets.is_some()
+            && self.tile_byte_counts.is_some();
+        match xy
+            .iter()
+            .find(|(x, y)| is_tiled && self.tile_byte_range(*x, *y).is_none())
+        {
+            Some((x, y)) => AsyncTiffError::TileIndexError(
+                u32::try_from(*x).unwrap_or(u32::MAX),
+                u32::try_from(*y).unwrap_or(u32::MAX),
+            ),
+            None => AsyncTiffError::General("Not a tiled TIFF".to_string()),
+        }
+    }
+
     /// Return the number of x/y tiles in the IFD
     /// Returns `None` if this is not a tiled TIFF
     pub fn tile_count(&self) -> Option<(usize, usize)> {
-        let x_count = (self.image_width as f64 / self.tile_width? as f64).ceil();
-        let y_count = (self.image_height as f64 / self.tile_height? as f64).ceil();
+        let tile_width = self.tile_width.filter(|width| *width > 0)?;
+        let tile_height = self.tile_height.filter(|height| *height > 0)?;
+        let x_count = self.image_width.div_ceil(tile_width);
+        let y_count = self.image_height.div_ceil(tile_height);
         Some((x_count as usize, y_count as usize))
     }
 }
@@ -796,24 +819,30 @@ impl TileByteRange {
         let tile_offsets = ifd.tile_offsets.as_deref()?;
         let tile_byte_counts = ifd.tile_byte_counts.as_deref()?;
         let (tiles_per_row, tiles_per_col) = ifd.tile_count()?;
+        if x >= tiles_per_row || y >= tiles_per_col {
+            return None;
+        }
+        let byte_range = |idx: usize| {
+            let offset = *tile_offsets.get(idx)?;
+            let byte_count = *tile_byte_counts.get(idx)?;
+            Some(offset..offset.checked_add(byte_count)?)
+        };
         match ifd.planar_configuration {
             PlanarConfiguration::Chunky => {
                 let idx = (y * tiles_per_row) + x;
-                let offset = tile_offsets[idx];
-                let byte_count = tile_byte_counts[idx];
-                Some(TileByteRange::Chunky(offset..(offset + byte_count)))
+                Some(TileByteRange::Chunky(byte_range(idx)?))
             }
             PlanarConfiguration::Planar => {
-                let tiles_per_band = tiles_per_row * tiles_per_col;
+                let tiles_per_band = tiles_per_row.checked_mul(tiles_per_col)?;
                 let num_bands = ifd.samples_per_pixel as usize;
                 let band_ranges = (0..num_bands)
                     .map(|band| {
-                        let band_idx = (band * tiles_per_band) + (y * tiles_per_row) + x;
-                        let offset = tile_offsets[band_idx];
-                        let byte_count = tile_byte_counts[band_idx];
-                        offset..(offset + byte_count)
+                        let band_idx = band
+                            .checked_mul(tiles_per_band)?
+                            .checked_add((y * tiles_per_row) + x)?;
+                        byte_range(band_idx)
                     })
-                    .collect::<Vec<_>>();
+                    .collect::<Option<Vec<_>>>()?;
                 Some(TileByteRange::Planar(band_ranges))
             }
         }
-- 
2.43.0


From 9339c7bf16947ad3617263e16821003f1c46def9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:21 +0000
Subject: [PATCH 09/21] fix: stop at a cycle in the chain of IFDs

A next-IFD offset pointing at an IFD already read made read_all_ifds loop forever,
accumulating IFDs.
---
 src/metadata/reader.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 34f6a7f..3b522f0 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::Read;
 
 use bytes::Bytes;
@@ -24,6 +24,8 @@ pub struct TiffMetadataReader {
     endianness: Endianness,
     bigtiff: bool,
     next_ifd_offset: Option<u64>,
+    /// The offsets of the IFDs that have been read, to detect a cycle in the chain of IFDs
+    visited_ifd_offsets: HashSet<u64>,
 }
 
 impl TiffMetadataReader {
@@ -79,6 +81,7 @@ impl TiffMetadataReader {
             endianness,
             bigtiff,
             next_ifd_offset: Some(first_ifd_location),
+            visited_ifd_offsets: HashSet::new(),
         })
     }
 
@@ -112,12 +115,16 @@ impl TiffMetadataReader {
         fetch: &F,
     ) -> AsyncTiffResult<Option<ImageFileDirectory>> {
         if let Some(ifd_start) = self.next_ifd_offset {
+            if self.visited_ifd_offsets.contains(&ifd_start) {
+                return Err(TiffError::FormatError(TiffFormatError::CycleInOffsets).into());
+            }
             let ifd_reader =
                 ImageFileDirectoryReader::open(fetch, ifd_start, self.bigtiff, self.endianness)
                     .await?;
             let ifd = ifd_reader.read(fetch).await?;
             let next_ifd_offset = ifd_reader.finish(fetch).await?;
             self.next_ifd_offset = next_ifd_offset;
+            self.visited_ifd_offsets.insert(ifd_start);
             Ok(Some(ifd))
         } else {
             Ok(None)
-- 
2.43.0


From 50a63d5137502738821de1bcb896d79704fed0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:51 +0000
Subject: [PATCH 10/21] fix: return an error for malformed tags instead of
 panicking

---
 src/metadata/reader.rs | 85 ++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 49 deletions(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 3b522f0..fee627d 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -1,12 +1,11 @@
 use std::collections::{HashMap, HashSet};
-use std::io::Read;
 
 use bytes::Bytes;
 
 use crate::error::{AsyncTiffError, AsyncTiffResult, TiffError, TiffFormatError};
 use crate::metadata::fetch::MetadataCursor;
 use crate::metadata::MetadataFetch;
-use crate::reader::Endianness;
+use crate::reader::{EndianAwareReader, Endianness};
 use crate::tag_value::TagValue;
 use crate::tags::{Tag, Type};
 use crate::{ImageFileDirectory, TIFF};
@@ -278,9 +277,12 @@ async fn read_tag<F: MetadataFetch>(
     let tag_name = Tag::from_u16_exhaustive(cursor.read_u16().await?);
 
     let tag_type_code = cursor.read_u16().await?;
-    let tag_type = Type::from_u16(tag_type_code).expect(
-        "Unknown tag type {tag_type_code}. TODO: we should skip entries with unknown tag types.",
-    );
+    // TODO: we should skip entries with unknown tag types.
+    let tag_type = Type::from_u16(tag_type_code).ok_or_else(|| {
+        AsyncTiffError::General(format!(
+            "Unknown tag type {tag_type_code} for tag {tag_name:?}"
+        ))
+    })?;
     let count = if bigtiff {
         cursor.read_u64().await?
     } else {
@@ -320,7 +322,7 @@ async fn read_tag_value<F: MetadataFetch>(
         | Type::IFD8 => 8,
     };
 
-    let value_byte_length = count.checked_mul(tag_size).unwrap();
+    let value_byte_length = count.checked_mul(tag_size).ok_or(TiffError::IntSizeError)?;
 
     // Case 2: there is one value.
     if count == 1 {
@@ -362,14 +364,7 @@ async fn read_tag_value<F: MetadataFetch>(
             Type::LONG => TagValue::Unsigned(data.read_u32()?),
             Type::SLONG => TagValue::Signed(data.read_i32()?),
             Type::FLOAT => TagValue::Float(data.read_f32()?),
-            Type::ASCII => {
-                if data.as_ref()[0] == 0 {
-                    TagValue::Ascii("".to_string())
-                } else {
-                    panic!("Invalid tag");
-                    // return Err(TiffError::FormatError(TiffFormatError::InvalidTag));
-                }
-            }
+            Type::ASCII => read_ascii(&data, count)?,
             Type::LONG8 => {
                 let offset = data.read_u32()?;
                 cursor.seek(offset as _);
@@ -419,36 +414,20 @@ async fn read_tag_value<F: MetadataFetch>(
 
         match tag_type {
             Type::BYTE | Type::UNDEFINED => {
-                return {
-                    Ok(TagValue::List(
-                        (0..count)
-                            .map(|_| TagValue::Byte(data.read_u8().unwrap()))
-                            .collect(),
-                    ))
-                };
-            }
-            Type::SBYTE => {
-                return {
-                    Ok(TagValue::List(
-                        (0..count)
-                            .map(|_| TagValue::SignedByte(data.read_i8().unwrap()))
-                            .collect(),
-                    ))
+                let mut v = Vec::new();
+                for _ in 0..count {
+                    v.push(TagValue::Byte(data.read_u8()?));
                 }
+                return Ok(TagValue::List(v));
             }
-            Type::ASCII => {
-                let mut buf = vec![0; count as usize];
-                data.read_exact(&mut buf)?;
-                if buf.is_ascii() && buf.ends_with(&[0]) {
-                    let v = std::str::from_utf8(&buf)
-                        .map_err(|err| AsyncTiffError::General(err.to_string()))?;
-                    let v = v.trim_matches(char::from(0));
-                    return Ok(TagValue::Ascii(v.into()));
-                } else {
-                    panic!("Invalid tag");
-                    // return Err(TiffError::FormatError(TiffFormatError::InvalidTag));
+            Type::SBYTE => {
+                let mut v = Vec::new();
+                for _ in 0..count {
+                    v.push(TagValue::SignedByte(data.read_i8()?));
                 }
+                return Ok(TagValue::List(v));
             }
+            Type::ASCII => return read_ascii(&data, count),
             Type::SHORT => {
                 let mut v = Vec::new();
                 for _ in 0..count {
@@ -619,19 +598,27 @@ async fn read_tag_value<F: MetadataFetch>(
             Ok(TagValue::List(v))
         }
         Type::ASCII => {
-            let mut out = vec![0; count as _];
-            let mut buf = cursor.read(count).await?;
-            buf.read_exact(&mut out)?;
-
-            // Strings may be null-terminated, so we trim anything downstream of the null byte
-            if let Some(first) = out.iter().position(|&b| b == 0) {
-                out.truncate(first);
-            }
-            Ok(TagValue::Ascii(String::from_utf8_lossy(&out).into_owned()))
+            let data = cursor.read(count).await?;
+            read_ascii(&data, count)
         }
     }
 }
 
+/// Interpret the first `count` bytes of `data` as an ASCII tag value
+fn read_ascii(data: &EndianAwareReader, count: u64) -> AsyncTiffResult<TagValue> {
+    let data = data.as_ref();
+    if (data.len() as u64) < count {
+        return Err(AsyncTiffError::EndOfFile(count, data.len() as u64));
+    }
+    let mut out = &data[..count as usize];
+
+    // Strings may be null-terminated, so we trim anything downstream of the null byte
+    if let Some(first) = out.iter().position(|&b| b == 0) {
+        out = &out[..first];
+    }
+    Ok(TagValue::Ascii(String::from_utf8_lossy(out).into_owned()))
+}
+
 #[cfg(test)]
 mod test {
     use async_trait::async_trait;
-- 
2.43.0


From 57807a6c07f364c4dead275aab7fa1bc6806d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:51 +0000
Subject: [PATCH 11/21] fix: do not allocate memory for counts that the file
 only claims to have

---
 src/metadata/reader.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index fee627d..48eeaeb 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -233,7 +233,7 @@ impl ImageFileDirectoryReader {
     /// Keep in mind that you'll still need to call [`finish`][Self::finish] to get the byte offset
     /// of the next IFD.
     pub async fn read<F: MetadataFetch>(&self, fetch: &F) -> AsyncTiffResult<ImageFileDirectory> {
-        let mut tags = HashMap::with_capacity(self.tag_count as usize);
+        let mut tags = HashMap::new();
         for tag_idx in 0..self.tag_count {
             let (tag, value) = self.read_tag(fetch, tag_idx).await?;
             tags.insert(tag, value);
@@ -494,63 +494,63 @@ async fn read_tag_value<F: MetadataFetch>(
         // TODO check if this could give wrong results
         // at a different endianess of file/computer.
         Type::BYTE | Type::UNDEFINED => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Byte(cursor.read_u8().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SBYTE => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SignedByte(cursor.read_i8().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SHORT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Short(cursor.read_u16().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SSHORT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SignedShort(cursor.read_i16().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::LONG => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Unsigned(cursor.read_u32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SLONG => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Signed(cursor.read_i32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::FLOAT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Float(cursor.read_f32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::DOUBLE => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Double(cursor.read_f64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::RATIONAL => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Rational(
                     cursor.read_u32().await?,
@@ -560,7 +560,7 @@ async fn read_tag_value<F: MetadataFetch>(
             Ok(TagValue::List(v))
         }
         Type::SRATIONAL => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SRational(
                     cursor.read_i32().await?,
@@ -570,28 +570,28 @@ async fn read_tag_value<F: MetadataFetch>(
             Ok(TagValue::List(v))
         }
         Type::LONG8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::UnsignedBig(cursor.read_u64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SLONG8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SignedBig(cursor.read_i64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::IFD => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Ifd(cursor.read_u32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::IFD8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::IfdBig(cursor.read_u64().await?))
             }
-- 
2.43.0


From 4d88609f7c7d0d03246b991c0b3b2e932891bdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:52 +0000
Subject: [PATCH 12/21] fix: return an error when an offset in the file
 overflows

---
 src/metadata/fetch.rs  | 12 ++++++++----
 src/metadata/reader.rs | 16 +++++++++++-----
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/metadata/fetch.rs b/src/metadata/fetch.rs
index b18fcb1..a6e5fbe 100644
--- a/src/metadata/fetch.rs
+++ b/src/metadata/fetch.rs
@@ -4,7 +4,7 @@ use std::ops::Range;
 use async_trait::async_trait;
 use bytes::Bytes;
 
-use crate::error::AsyncTiffResult;
+use crate::error::{AsyncTiffResult, TiffError};
 use crate::reader::{AsyncFileReader, EndianAwareReader, Endianness};
 
 /// A data source that can be used with [`TiffMetadataReader`][crate::metadata::TiffMetadataReader]
@@ -64,13 +64,17 @@ impl<'a, F: MetadataFetch> MetadataCursor<'a, F> {
 
     /// Advance cursor position by a set amount
     pub(crate) fn advance(&mut self, amount: u64) {
-        self.offset += amount;
+        self.offset = self.offset.saturating_add(amount);
     }
 
     /// Read the given number of bytes, advancing the internal cursor state by the same amount.
     pub(crate) async fn read(&mut self, length: u64) -> AsyncTiffResult<EndianAwareReader> {
-        let range = self.offset as _..(self.offset + length) as _;
-        self.offset += length;
+        let end = self
+            .offset
+            .checked_add(length)
+            .ok_or(TiffError::IntSizeError)?;
+        let range = self.offset..end;
+        self.offset = end;
         let bytes = self.fetch.fetch(range).await?;
         Ok(EndianAwareReader::new(bytes, self.endianness))
     }
diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 48eeaeb..2c93560 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -209,6 +209,15 @@ impl ImageFileDirectoryReader {
         })
     }
 
+    /// The byte offset of the IFD entry with the specified index.
+    fn entry_offset(&self, tag_idx: u64) -> AsyncTiffResult<u64> {
+        self.ifd_entry_byte_size
+            .checked_mul(tag_idx)
+            .and_then(|offset| offset.checked_add(self.tag_count_byte_size))
+            .and_then(|offset| offset.checked_add(self.ifd_start_offset))
+            .ok_or_else(|| TiffError::IntSizeError.into())
+    }
+
     /// Manually read the tag with the specified index.
     ///
     /// Panics if the tag index is out of range of the tag count.
@@ -221,8 +230,7 @@ impl ImageFileDirectoryReader {
         tag_idx: u64,
     ) -> AsyncTiffResult<(Tag, TagValue)> {
         assert!(tag_idx < self.tag_count);
-        let tag_offset =
-            self.ifd_start_offset + self.tag_count_byte_size + (self.ifd_entry_byte_size * tag_idx);
+        let tag_offset = self.entry_offset(tag_idx)?;
         let (tag_name, tag_value) =
             read_tag(fetch, tag_offset, self.endianness, self.bigtiff).await?;
         Ok((tag_name, tag_value))
@@ -244,9 +252,7 @@ impl ImageFileDirectoryReader {
     /// Finish this reader, reading the byte offset of the next IFD
     pub async fn finish<F: MetadataFetch>(self, fetch: &F) -> AsyncTiffResult<Option<u64>> {
         // The byte offset for reading the next ifd
-        let next_ifd_byte_offset = self.ifd_start_offset
-            + self.tag_count_byte_size
-            + (self.ifd_entry_byte_size * self.tag_count);
+        let next_ifd_byte_offset = self.entry_offset(self.tag_count)?;
         let mut cursor =
             MetadataCursor::new_with_offset(fetch, self.endianness, next_ifd_byte_offset);
 
-- 
2.43.0


From c18a2d2fcf68e5270d8a178ce0d92ab1623b29c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:53 +0000
Subject: [PATCH 13/21] fix: size of buffers and requests of the metadata cache
 for ranges past the end of the file

---
 src/metadata/cache.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/metadata/cache.rs b/src/metadata/cache.rs
index 80f498f..7953373 100644
--- a/src/metadata/cache.rs
+++ b/src/metadata/cache.rs
@@ -39,9 +39,6 @@ impl SequentialBlockCache {
 
     /// Slice out the given range from the cached buffers
     fn slice(&self, range: Range<u64>) -> Bytes {
-        // The size of the output buffer
-        let out_len = (range.end - range.start) as usize;
-
         // The remaining range of bytes required. This range is updated as we traverse buffers, so
         // the indexes are relative to the current buffer.
         let mut remaining = range;
@@ -82,6 +79,8 @@ impl SequentialBlockCache {
         if out_buffers.len() == 1 {
             out_buffers.into_iter().next().unwrap()
         } else {
+            // The size of the output buffer, which is shorter than the range at the end of the file
+            let out_len = out_buffers.iter().map(|b| b.len()).sum();
             let mut out = BytesMut::with_capacity(out_len);
             for b in out_buffers {
                 out.extend_from_slice(&b);
@@ -158,7 +157,7 @@ impl<F: MetadataFetch + Send + Sync> MetadataFetch for ReadaheadMetadataCache<F>
         let start_len = cache.len;
         let needed = range.end.saturating_sub(start_len);
         let fetch_size = self.next_fetch_size(start_len).max(needed);
-        let fetch_range = start_len..start_len + fetch_size;
+        let fetch_range = start_len..start_len.saturating_add(fetch_size);
 
         // Perform the fetch while holding mutex
         // (this is OK because the mutex is async)
-- 
2.43.0


From 1161d6bf603aacba546bfa5ab65320f7b10a38f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:32 +0000
Subject: [PATCH 14/21] fix: return an error for IFDs with missing or mistyped
 tags instead of panicking

---
 src/ifd.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index ee2142a..47a0e8c 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -224,11 +224,15 @@ impl ImageFileDirectory {
                 Tag::MaxSampleValue => max_sample_value = Some(value.into_u16_vec()?),
                 Tag::XResolution => match value {
                     TagValue::Rational(n, d) => x_resolution = Some(n as f64 / d as f64),
-                    _ => unreachable!("Expected rational type for XResolution."),
+                    _ => Err(TiffError::FormatError(
+                        TiffFormatError::InvalidTagValueType(tag),
+                    ))?,
                 },
                 Tag::YResolution => match value {
                     TagValue::Rational(n, d) => y_resolution = Some(n as f64 / d as f64),
-                    _ => unreachable!("Expected rational type for YResolution."),
+                    _ => Err(TiffError::FormatError(
+                        TiffFormatError::InvalidTagValueType(tag),
+                    ))?,
                 },
                 Tag::PlanarConfiguration => {
                     planar_configuration = PlanarConfiguration::from_u16(value.into_u16()?)
@@ -372,7 +376,20 @@ impl ImageFileDirectory {
             geo_key_directory = Some(GeoKeyDirectory::from_tags(tags)?);
         }
 
-        let samples_per_pixel = samples_per_pixel.expect("samples_per_pixel not found");
+        let required = |tag| TiffError::FormatError(TiffFormatError::RequiredTagNotFound(tag));
+        // Defaults to one sample per pixel
+        // https://web.archive.org/web/20240329145311/https://www.awaresystems.be/imaging/tiff/tifftags/samplesperpixel.html
+        let samples_per_pixel = samples_per_pixel.unwrap_or(1);
+        // Defaults to one bit per sample
+        // https://web.archive.org/web/20240329145250/https://www.awaresystems.be/imaging/tiff/tifftags/bitspersample.html
+        let bits_per_sample =
+            bits_per_sample.unwrap_or_else(|| vec![1; samples_per_pixel as usize]);
+        if bits_per_sample.is_empty() {
+            return Err(TiffError::FormatError(TiffFormatError::RequiredTagEmpty(
+                Tag::BitsPerSample,
+            ))
+            .into());
+        }
         let planar_configuration = if let Some(planar_configuration) = planar_configuration {
             planar_configuration
         } else if samples_per_pixel == 1 {
@@ -385,14 +402,14 @@ impl ImageFileDirectory {
         Ok(Self {
             endianness,
             new_subfile_type,
-            image_width: image_width.expect("image_width not found"),
-            image_height: image_height.expect("image_height not found"),
-            bits_per_sample: bits_per_sample.expect("bits per sample not found"),
+            image_width: image_width.ok_or_else(|| required(Tag::ImageWidth))?,
+            image_height: image_height.ok_or_else(|| required(Tag::ImageLength))?,
+            bits_per_sample,
             // Defaults to no compression
             // https://web.archive.org/web/20240329145331/https://www.awaresystems.be/imaging/tiff/tifftags/compression.html
             compression: compression.unwrap_or(Compression::None),
             photometric_interpretation: photometric_interpretation
-                .expect("photometric interpretation not found"),
+                .ok_or_else(|| required(Tag::PhotometricInterpretation))?,
             document_name,
             image_description,
             strip_offsets,
-- 
2.43.0


From 6feb1cb472f3e2f37aa69575428b98600c06a5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:33 +0000
Subject: [PATCH 15/21] fix: return an error for malformed GeoKeyDirectory tags
 instead of panicking

---
 src/ifd.rs | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 47a0e8c..5a547b4 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -299,16 +299,19 @@ impl ImageFileDirectory {
         // We need to actually parse the GeoKeyDirectory after parsing all other tags because the
         // GeoKeyDirectory relies on `GeoAsciiParamsTag` having been parsed.
         if let Some(data) = geo_key_directory_data {
-            let mut chunks = data.chunks(4);
+            let invalid = |message: &str| {
+                TiffError::FormatError(TiffFormatError::Format(format!(
+                    "Invalid GeoKeyDirectory: {message}"
+                )))
+            };
+            let mut chunks = data.chunks_exact(4);
 
-            let header = chunks
-                .next()
-                .expect("If the geo key directory exists, a header should exist.");
+            let header = chunks.next().ok_or_else(|| invalid("no header"))?;
             let key_directory_version = header[0];
-            assert_eq!(key_directory_version, 1);
-
             let key_revision = header[1];
-            assert_eq!(key_revision, 1);
+            if key_directory_version != 1 || key_revision != 1 {
+                return Err(invalid("unsupported version").into());
+            }
 
             let _key_minor_revision = header[2];
             let number_of_keys = header[3];
@@ -317,7 +320,7 @@ impl ImageFileDirectory {
             for _ in 0..number_of_keys {
                 let chunk = chunks
                     .next()
-                    .expect("There should be a chunk for each key.");
+                    .ok_or_else(|| invalid("fewer keys than in its header"))?;
 
                 let key_id = chunk[0];
                 let tag_name = if let Ok(tag_name) = GeoKeyTag::try_from_primitive(key_id) {
@@ -340,11 +343,11 @@ impl ImageFileDirectory {
                     // If the tag_location points to the value of Tag::GeoAsciiParams, then we
                     // need to extract a subslice from GeoAsciiParams
 
-                    let geo_ascii_params = geo_ascii_params
-                        .as_ref()
-                        .expect("GeoAsciiParamsTag exists but geo_ascii_params does not.");
                     let value_offset = value_offset as usize;
-                    let mut s = &geo_ascii_params[value_offset..value_offset + count as usize];
+                    let mut s = geo_ascii_params
+                        .as_ref()
+                        .and_then(|params| params.get(value_offset..value_offset + count as usize))
+                        .ok_or_else(|| invalid("key outside of GeoAsciiParams"))?;
 
                     // It seems that this string subslice might always include the final |
                     // character?
@@ -357,17 +360,15 @@ impl ImageFileDirectory {
                     // If the tag_location points to the value of Tag::GeoDoubleParams, then we
                     // need to extract a subslice from GeoDoubleParams
 
-                    let geo_double_params = geo_double_params
-                        .as_ref()
-                        .expect("GeoDoubleParamsTag exists but geo_double_params does not.");
                     let value_offset = value_offset as usize;
+                    let values = geo_double_params
+                        .as_ref()
+                        .and_then(|params| params.get(value_offset..value_offset + count as usize))
+                        .ok_or_else(|| invalid("key outside of GeoDoubleParams"))?;
                     let value = if count == 1 {
-                        TagValue::Double(geo_double_params[value_offset])
+                        TagValue::Double(values[0])
                     } else {
-                        let x = geo_double_params[value_offset..value_offset + count as usize]
-                            .iter()
-                            .map(|val| TagValue::Double(*val))
-                            .collect();
+                        let x = values.iter().map(|val| TagValue::Double(*val)).collect();
                         TagValue::List(x)
                     };
                     tags.insert(tag_name, value);
-- 
2.43.0


From f6b04515e6d704cada35b55b62a00b62d8f68b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:59 +0000
Subject: [PATCH 16/21] fix: read the requested bytes in TokioReader

---
 src/reader.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 3ac1317..ce930fa 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -112,10 +112,11 @@ impl<T: tokio::io::AsyncRead + tokio::io::AsyncSeek + Unpin + Send + Debug> Toki
 
         file.seek(SeekFrom::Start(range.start)).await?;
 
-        let to_read = range.end - range.start;
-        let mut buffer = Vec::with_capacity(to_read as usize);
-        let read = file.read(&mut buffer).await? as u64;
-        if read != to_read {
+        let to_read = range.end.saturating_sub(range.start);
+        let mut buffer = Vec::new();
+        // A range that extends past the end of the file is truncated, like for other readers
+        let read = (&mut *file).take(to_read).read_to_end(&mut buffer).await? as u64;
+        if read == 0 && to_read > 0 {
             return Err(AsyncTiffError::EndOfFile(to_read, read));
         }
 
-- 
2.43.0


From 3743a432c058efd4e1b1cf3aed70a08222330ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:00 +0000
Subject: [PATCH 17/21] fix: empty ranges and servers without range support in
 ReqwestReader

---
 src/reader.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index ce930fa..3d527f0 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -203,16 +203,27 @@ impl ReqwestReader {
     async fn make_range_request(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
         let url = self.url.clone();
         let client = self.client.clone();
+        // An empty range can't be expressed as an HTTP range
+        if range.is_empty() {
+            return Ok(Bytes::new());
+        }
         // HTTP range is inclusive, so we need to subtract 1 from the end
-        let range = format!("bytes={}-{}", range.start, range.end - 1);
+        let header = format!("bytes={}-{}", range.start, range.end - 1);
         let response = client
             .get(url)
-            .header("Range", range)
+            .header("Range", header)
             .send()
             .await?
             .error_for_status()?;
+        let is_partial = response.status() == reqwest::StatusCode::PARTIAL_CONTENT;
         let bytes = response.bytes().await?;
-        Ok(bytes)
+        if is_partial {
+            return Ok(bytes);
+        }
+        // The server ignored the range and sent the whole file
+        let start = range.start.min(bytes.len() as u64) as usize;
+        let end = range.end.min(bytes.len() as u64) as usize;
+        Ok(bytes.slice(start..end))
     }
 }
 
-- 
2.43.0


From 80be7d289d5649fc4846420f8d3afba1cd7d4091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:26 +0000
Subject: [PATCH 18/21] fix: decode JPEG tiles of several components without
 color transform

---
 src/decoder.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 9d4a510..aa02d2a 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -402,7 +402,21 @@ fn decode_modern_jpeg(
         PhotometricInterpretation::WhiteIsZero
         | PhotometricInterpretation::BlackIsZero
         | PhotometricInterpretation::TransparencyMask => {
-            decoder.set_color_transform(jpeg::ColorTransform::None)
+            decoder.read_info()?;
+            match decoder.info().map(|info| info.pixel_format) {
+                // `ColorTransform::None` only works for a single component: it does not interleave
+                // samples. `ColorTransform::RGB` interleaves three components without changing them.
+                Some(jpeg::PixelFormat::RGB24) => {
+                    decoder.set_color_transform(jpeg::ColorTransform::RGB)
+                }
+                Some(jpeg::PixelFormat::CMYK32) => {
+                    return Err(TiffError::UnsupportedError(
+                        TiffUnsupportedError::UnsupportedInterpretation(photometric_interpretation),
+                    )
+                    .into());
+                }
+                _ => decoder.set_color_transform(jpeg::ColorTransform::None),
+            }
         }
         PhotometricInterpretation::CMYK => decoder.set_color_transform(jpeg::ColorTransform::CMYK),
         PhotometricInterpretation::YCbCr => {
-- 
2.43.0


From 844801bde249d01da8f1f77a1e7a2cb05a617da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:09 +0000
Subject: [PATCH 19/21] fix: return an error for LERC blobs that claim more
 values than memory can hold

---
 src/decoder.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index aa02d2a..56c75a3 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -133,6 +133,24 @@ fn decode_lerc<T: lerc::LercDataType + bytemuck::Pod>(
     buffer: &[u8],
     info: &lerc::BlobInfo,
 ) -> AsyncTiffResult<Vec<u8>> {
+    // `lerc::decode` allocates whatever size the blob claims, and does not check the size for
+    // overflow, so ensure up front that the allocations can succeed.
+    let pixels = (info.width as usize).checked_mul(info.height as usize);
+    let values = pixels
+        .and_then(|n| n.checked_mul(info.depth as usize))
+        .and_then(|n| n.checked_mul(info.bands as usize));
+    let masks = pixels.and_then(|n| n.checked_mul(info.masks as usize));
+    let (Some(values), Some(masks)) = (values, masks) else {
+        return Err(TiffError::IntSizeError.into());
+    };
+    if Vec::<T>::new().try_reserve_exact(values).is_err()
+        || Vec::<u8>::new().try_reserve_exact(masks).is_err()
+    {
+        return Err(AsyncTiffError::General(format!(
+            "LERC blob claims too many values: {values}"
+        )));
+    }
+
     let (data, _mask) = lerc::decode::<T>(
         buffer,
         info.width as usize,
-- 
2.43.0


From 26c1b7c31fbd44b1366a3e9f28e4b4e4eb5d4d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:40 +0000
Subject: [PATCH 20/21] fix: return an error for horizontal prediction of
 samples that are not whole words

---
 src/predictor.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/predictor.rs b/src/predictor.rs
index c04ac74..3f4538c 100644
--- a/src/predictor.rs
+++ b/src/predictor.rs
@@ -52,7 +52,7 @@ pub(crate) fn fix_endianness(buffer: &mut [u8], byte_order: Endianness, bits_per
 ///
 /// Fixes endianness first, then reverses the per-sample delta encoding.
 ///
-/// Errors if the buffer is not a whole number of rows, or for samples wider than 64 bits.
+/// Errors if the buffer is not a whole number of rows, or for samples that are not 1 to 64 bits wide.
 pub(crate) fn unpredict_hdiff(
     mut buffer: Vec<u8>,
     endianness: Endianness,
@@ -60,13 +60,18 @@ pub(crate) fn unpredict_hdiff(
     bits_per_sample: u16,
     tile_width: usize,
 ) -> AsyncTiffResult<Vec<u8>> {
-    if bits_per_sample > 64 {
-        return Err(AsyncTiffError::General(format!(
-            "Horizontal predictor not supported for {bits_per_sample}-bit samples"
-        )));
-    }
-
-    let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
+    // The size of the words that the differences are summed in
+    let bytes_per_sample = match bits_per_sample {
+        1..=8 => 1,
+        9..=16 => 2,
+        17..=32 => 4,
+        33..=64 => 8,
+        _ => {
+            return Err(AsyncTiffError::General(format!(
+                "Horizontal predictor not supported for {bits_per_sample}-bit samples"
+            )))
+        }
+    };
     let row_stride = tile_width * samples * bytes_per_sample;
     check_whole_rows(buffer.len(), row_stride)?;
 
-- 
2.43.0


From ff71954efe77e7aeaa86ba728e5837cdb14436b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:48 +0000
Subject: [PATCH 21/21] fix: read geo keys stored in the GeoKeyDirectory itself

---
 src/ifd.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ifd.rs b/src/ifd.rs
index 5a547b4..74eceea 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -339,6 +339,18 @@ impl ImageFileDirectory {
 
                 if tag_location == 0 {
                     tags.insert(tag_name, TagValue::Short(value_offset));
+                } else if Tag::from_u16_exhaustive(tag_location) == Tag::GeoKeyDirectory {
+                    // The value lies in the GeoKeyDirectory itself, after its keys
+                    let value_offset = value_offset as usize;
+                    let values = data
+                        .get(value_offset..value_offset + count as usize)
+                        .ok_or_else(|| invalid("key outside of GeoKeyDirectory"))?;
+                    let value = if count == 1 {
+                        TagValue::Short(values[0])
+                    } else {
+                        TagValue::List(values.iter().map(|val| TagValue::Short(*val)).collect())
+                    };
+                    tags.insert(tag_name, value);
                 } else if Tag::from_u16_exhaustive(tag_location) == Tag::GeoAsciiParams {
                     // If the tag_location points to the value of Tag::GeoAsciiParams, then we
                     // need to extract a subslice from GeoAsciiParams
-- 
2.43.0

