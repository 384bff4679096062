From 49dbb69902093ba963cdf875d5a870556b08c41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 01/41] fix: round grid extents up exactly

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1455ad4..a65ed50 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -338,7 +338,7 @@ pub trait HierarchyWriter: HierarchyReader {
 }
 
 fn u64_ceil_div(a: u64, b: u64) -> u64 {
-    (a + 1) / b + (if a % b != 0 { 1 } else { 0 })
+    a / b + (if a % b != 0 { 1 } else { 0 })
 }
 
 /// Metadata for groups.
-- 
2.43.0


From 50588636d2b48eecbf4d38bd3ba0b0fd630a6aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 02/41] fix: do not strip the metadata key suffix twice when
 listing nodes

---
 src/storage.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 887f63b..d39afea 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -332,9 +332,7 @@ impl<S: ListableStore + Hierarchy> HierarchyLister for S {
         );
 
         // Remove metadata extensions from keys to partially convert to node paths.
-        let suffix_len = self.get_entry_point_metadata().metadata_key_suffix.len()
-            + crate::ARRAY_METADATA_KEY_EXT.len()
-            + 1;
+        let suffix_len = crate::ARRAY_METADATA_KEY_EXT.len() + 1;
         keys.iter_mut()
             .for_each(|k| k.truncate(k.len() - suffix_len));
 
-- 
2.43.0


From d68c4653abaf9871749c8f15f38f94107b1a125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 03/41] fix: list nodes when the metadata key suffix has no
 leading dot

---
 src/storage.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index d39afea..0b66ff5 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -318,10 +318,11 @@ impl<S: ListableStore + Hierarchy> HierarchyLister for S {
         let (mut keys, mut prefixes) = self.list_dir(&key_prefix)?;
 
         // Find array and group metadata keys.
-        keys.retain(|k| k.ends_with(&self.get_entry_point_metadata().metadata_key_suffix));
-        keys.iter_mut().for_each(|k| {
-            k.truncate(k.len() - self.get_entry_point_metadata().metadata_key_suffix.len())
-        });
+        let suffix = &self.get_entry_point_metadata().metadata_key_suffix;
+        let suffix = format!(".{}", suffix.strip_prefix('.').unwrap_or(suffix));
+        keys.retain(|k| k.ends_with(&suffix));
+        keys.iter_mut()
+            .for_each(|k| k.truncate(k.len() - suffix.len()));
         keys.retain(|k| {
             k.ends_with(&crate::ARRAY_METADATA_KEY_EXT)
                 || k.ends_with(&crate::GROUP_METADATA_KEY_EXT)
-- 
2.43.0


From 0bf21b3733d6a8ae69fb30f41afad0c134854337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 04/41] fix: reject paths that leave the hierarchy and re-enter
 at equal depth

---
 src/store/filesystem.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index de08f82..9fa9182 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -177,16 +177,17 @@ impl FilesystemHierarchy {
                 Component::ParentDir => nest -= 1,
                 Component::Normal(_) => nest += 1,
             };
-        }
 
-        if nest < 0 {
-            Err(Error::new(
-                ErrorKind::NotFound,
-                "Path name is outside this Zarr filesystem",
-            ))
-        } else {
-            Ok(self.base_path.join(unrooted_path))
+            // A path that leaves the base path may not come back into it.
+            if nest < 0 {
+                return Err(Error::new(
+                    ErrorKind::NotFound,
+                    "Path name is outside this Zarr filesystem",
+                ));
+            }
         }
+
+        Ok(self.base_path.join(unrooted_path))
     }
 }
 
-- 
2.43.0


From 08a4d87c70bac736de88c2e7ce393fb160bb0ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 05/41] fix: remove the metadata of all nodes below a removed
 node

---
 src/storage.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 0b66ff5..8a26629 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -4,6 +4,7 @@ use std::io::{
     Read,
     Write,
 };
+use std::path::PathBuf;
 
 use semver::VersionReq;
 use serde_json::Value;
@@ -444,10 +445,11 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         // TODO: needless allocs
         let metadata_key = self.group_metadata_key(path_name);
         self.erase(metadata_key.to_str().expect("TODO"))?;
-        let mut metadata_key = self.array_metadata_key(path_name);
+        let metadata_key = self.array_metadata_key(path_name);
         self.erase(metadata_key.to_str().expect("TODO"))?;
-        metadata_key.set_extension("");
-        metadata_key.set_extension("");
+        let metadata_prefix =
+            PathBuf::from(crate::META_ROOT_PATH).join(canonicalize_path(path_name));
+        self.erase_prefix(metadata_prefix.to_str().expect("TODO"))?;
         self.erase_prefix(self.data_path_key(path_name).to_str().expect("TODO"))?;
         Ok(())
     }
-- 
2.43.0


From fbe88be8af8424fab1f8ccd62a38fdfaf12180b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:21 +0000
Subject: [PATCH 06/41] fix: keep the stored chunk when a chunk write is
 rejected

---
 src/chunk.rs   | 33 ++++++++++++++++++++++-----------
 src/storage.rs |  2 ++
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index a0e5c29..e27aefb 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -265,6 +265,27 @@ fn check_array_type<T: ReflectedType>(array_meta: &ArrayMetadata) -> Result<()>
     }
 }
 
+/// Check that a chunk has the element type and number of elements of an array.
+pub(crate) fn check_chunk<T: ReflectedType, B: DataChunk<T>>(
+    array_meta: &ArrayMetadata,
+    chunk: &B,
+) -> Result<()> {
+    check_array_type::<T>(array_meta)?;
+
+    if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            format!(
+                "Can not write chunk with too few elements. Expected {} given {}",
+                array_meta.get_chunk_num_elements(),
+                chunk.get_num_elements()
+            ),
+        ));
+    }
+
+    Ok(())
+}
+
 /// Reads chunks from rust readers.
 pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     fn read_chunk(
@@ -304,18 +325,8 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
 /// Writes chunks to rust writers.
 pub trait DefaultChunkWriter<T: ReflectedType, W: Write, B: DataChunk<T> + WriteableDataChunk> {
     fn write_chunk(buffer: W, array_meta: &ArrayMetadata, chunk: &B) -> Result<()> {
-        check_array_type::<T>(array_meta)?;
+        check_chunk(array_meta, chunk)?;
 
-        if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
-            return Err(Error::new(
-                ErrorKind::InvalidData,
-                format!(
-                    "Can not write chunk with too few elements. Expected {} given {}",
-                    array_meta.get_chunk_num_elements(),
-                    chunk.get_num_elements()
-                ),
-            ));
-        }
         let mut compressor = array_meta.compressor.encoder(buffer);
         chunk.write_data(&mut compressor, array_meta)?;
 
diff --git a/src/storage.rs b/src/storage.rs
index 8a26629..1dd89ad 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -462,6 +462,8 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
     ) -> Result<(), Error> {
         // TODO convert assert
         // assert!(array_meta.in_bounds(chunk.get_grid_position()));
+        // Check before opening the key, as doing so truncates any existing value.
+        crate::chunk::check_chunk(array_meta, chunk)?;
         let chunk_key = get_chunk_key(path_name, array_meta, chunk.get_grid_position());
         self.set(&chunk_key, |writer| {
             <crate::chunk::DefaultChunk as crate::chunk::DefaultChunkWriter<T, _, _>>::write_chunk(
-- 
2.43.0


From 9cca0264a90af1435314a1d9233cbb77345c68dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:21 +0000
Subject: [PATCH 07/41] fix: do not pad serialized raw data types with NUL
 characters

---
 src/data_type.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 54dce7a..cb0a403 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -1,5 +1,3 @@
-use std::io::Write;
-
 use half::f16;
 use serde::{
     Deserialize,
@@ -155,10 +153,7 @@ impl Serialize for DataType {
                 size.serial_char().encode_utf8(&mut buf[2..3]);
                 std::str::from_utf8(&buf[..3]).unwrap()
             }
-            Raw { size } => {
-                write!(&mut buf[..], "r{}", size).expect("TODO");
-                std::str::from_utf8(&buf[..]).unwrap()
-            }
+            Raw { size } => return serializer.serialize_str(&format!("r{}", size)),
         };
         serializer.serialize_str(s)
     }
-- 
2.43.0


From 49bccd871fc5fbcc01082f862c50670e8bdf5c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 08/41] fix: report malformed data types as errors instead of
 panicking

---
 src/data_type.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index cb0a403..2e1d53e 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -201,19 +201,26 @@ impl<'de> serde::de::Visitor<'de> for DataTypeVisitor {
                 }
             }
             dtype if dtype.len() == 3 => {
+                let invalid =
+                    || serde::de::Error::invalid_value(serde::de::Unexpected::Str(value), &self);
                 let mut chars = dtype.chars();
-                let endian = Endian::deserial_char(chars.next().unwrap()).expect("TODO");
-                match chars.next().unwrap() {
+                let endian = chars
+                    .next()
+                    .and_then(Endian::deserial_char)
+                    .ok_or_else(invalid)?;
+                let kind = chars.next().ok_or_else(invalid)?;
+                let size_char = chars.next().ok_or_else(invalid)?;
+                match kind {
                     'i' => {
-                        let size = IntSize::deserial_char(chars.next().unwrap()).unwrap();
+                        let size = IntSize::deserial_char(size_char).ok_or_else(invalid)?;
                         DataType::Int { size, endian }
                     }
                     'u' => {
-                        let size = IntSize::deserial_char(chars.next().unwrap()).unwrap();
+                        let size = IntSize::deserial_char(size_char).ok_or_else(invalid)?;
                         DataType::UInt { size, endian }
                     }
                     'f' => {
-                        let size = FloatSize::deserial_char(chars.next().unwrap()).unwrap();
+                        let size = FloatSize::deserial_char(size_char).ok_or_else(invalid)?;
                         DataType::Float { size, endian }
                     }
                     _ => {
-- 
2.43.0


From f57a77caab582643206925a496a694d72f54d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 09/41] fix: report extension data types without a fallback as
 errors

---
 src/data_type.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 2e1d53e..938aba2 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -306,7 +306,9 @@ impl ExtensibleDataType {
             Extended {
                 fallback: Some(d), ..
             } => Ok(*d),
-            _ => todo!(),
+            Extended { type_string, .. } => {
+                Err(MetadataError::UnexpectedType(type_string.clone().into()))
+            }
         }
     }
 }
-- 
2.43.0


From 5e5c1e41cdde5c6f43c9bed6bab0ac751d7c518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:27 +0000
Subject: [PATCH 10/41] fix: iterate the single chunk of zero-dimensional
 arrays

---
 src/ndarray.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index 1a05c34..fcc1798 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -519,8 +519,13 @@ impl<T: Iterator<Item = Vec<u64>>> Iterator for CoordIterator<T> {
     type Item = Vec<u64>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.accumulator >= self.total_coords {
+            return None;
+        }
         self.accumulator += 1;
-        self.iter.next()
+        // The product of no ranges yields no items, but there is one coordinate
+        // (the empty one) in a zero-dimensional range.
+        Some(self.iter.next().unwrap_or_default())
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-- 
2.43.0


From a097d231f02fa26c4227743571251c4f78dc30cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:48 +0000
Subject: [PATCH 11/41] fix: visit no chunks for regions that do not intersect
 the array

---
 src/ndarray.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index fcc1798..e2993b4 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -419,6 +419,11 @@ impl ArrayMetadata {
             .map(|((&o, &s), cs)| (o + s + cs - 1) / cs)
             .collect();
 
+        // An empty region intersects no chunks, even if it is inside of one.
+        if bbox.is_empty() {
+            return CoordIterator::floor_ceil(&ceil_coord, &ceil_coord);
+        }
+
         CoordIterator::floor_ceil(&floor_coord, &ceil_coord)
     }
 
-- 
2.43.0


From d0fab2d43ca6ac6f20b2e91655e59dd8dd81abec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:49 +0000
Subject: [PATCH 12/41] fix: do not overflow when bounding regions and grids of
 large extents

---
 src/ndarray.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index e2993b4..0d5240d 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -79,7 +79,7 @@ impl BoundingBox {
             .zip(other.offset.iter())
             .for_each(|(((s, o), os), oo)| {
                 let new_o = std::cmp::max(*oo, *o);
-                *s = std::cmp::min(*s + *o, *oo + *os).saturating_sub(new_o);
+                *s = std::cmp::min(s.saturating_add(*o), oo.saturating_add(*os)).saturating_sub(new_o);
                 *o = new_o;
             });
     }
@@ -393,7 +393,7 @@ impl ArrayMetadata {
             .get_shape()
             .iter()
             .zip(self.get_chunk_shape().iter())
-            .map(|(&d, &s)| (d + u64::from(s) - 1) / u64::from(s))
+            .map(|(&d, &s)| crate::u64_ceil_div(d, u64::from(s)))
             .collect::<GridCoord>();
 
         CoordIterator::new(&coord_ceil)
@@ -416,7 +416,7 @@ impl ArrayMetadata {
             .iter()
             .zip(&bbox.shape)
             .zip(self.chunk_grid.chunk_shape.iter().cloned().map(u64::from))
-            .map(|((&o, &s), cs)| (o + s + cs - 1) / cs)
+            .map(|((&o, &s), cs)| crate::u64_ceil_div(o + s, cs))
             .collect();
 
         // An empty region intersects no chunks, even if it is inside of one.
-- 
2.43.0


From eabb35365d7e2a33a47b2a558aa47d32b8f4d241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:49 +0000
Subject: [PATCH 13/41] fix: report region offsets and grid positions not in
 the array as errors

---
 src/ndarray.rs |  2 +-
 src/storage.rs | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index 0d5240d..41d3598 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -287,7 +287,7 @@ pub trait ZarrNdarrayWriter: HierarchyWriter {
         A: ndarray::AsArray<'a, T, ndarray::Dim<ndarray::IxDynImpl>>,
     {
         let array = array.into();
-        if array.ndim() != array_meta.get_ndim() {
+        if array.ndim() != array_meta.get_ndim() || offset.len() != array_meta.get_ndim() {
             return Err(Error::new(
                 ErrorKind::InvalidData,
                 "Wrong number of dimensions",
diff --git a/src/storage.rs b/src/storage.rs
index 1dd89ad..b148d47 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -214,8 +214,12 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         VecDataChunk<T>: DataChunk<T> + ReadableDataChunk,
         T: ReflectedType,
     {
-        // TODO convert asserts to errors
-        assert!(array_meta.in_bounds(&grid_position));
+        if !array_meta.in_bounds(&grid_position) {
+            return Err(Error::new(
+                ErrorKind::InvalidInput,
+                "Grid position is outside of the array",
+            ));
+        }
 
         // Construct chunk path string
         let chunk_key = get_chunk_key(path_name, array_meta, &grid_position);
@@ -245,8 +249,12 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         grid_position: GridCoord,
         chunk: &mut B,
     ) -> Result<Option<()>, Error> {
-        // TODO convert asserts to errors
-        assert!(array_meta.in_bounds(&grid_position));
+        if !array_meta.in_bounds(&grid_position) {
+            return Err(Error::new(
+                ErrorKind::InvalidInput,
+                "Grid position is outside of the array",
+            ));
+        }
 
         // Construct chunk path string
         let chunk_key = get_chunk_key(path_name, array_meta, &grid_position);
-- 
2.43.0


From 807b987e2e80104285698aa8b56072f4a60734ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:07 +0000
Subject: [PATCH 14/41] fix: report errors when finishing and flushing written
 chunks

---
 src/chunk.rs | 49 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index e27aefb..6cc0465 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -327,9 +327,54 @@ pub trait DefaultChunkWriter<T: ReflectedType, W: Write, B: DataChunk<T> + Write
     fn write_chunk(buffer: W, array_meta: &ArrayMetadata, chunk: &B) -> Result<()> {
         check_chunk(array_meta, chunk)?;
 
-        let mut compressor = array_meta.compressor.encoder(buffer);
-        chunk.write_data(&mut compressor, array_meta)?;
+        let mut target = ErrorLatchWriter {
+            inner: buffer,
+            error: None,
+        };
+        {
+            let mut compressor = array_meta.compressor.encoder(&mut target);
+            chunk.write_data(&mut compressor, array_meta)?;
+            // Compressors write their remaining output when dropped.
+        }
 
+        target.finish()
+    }
+}
+
+/// Writer that holds the first error of a wrapped writer until it is finished.
+///
+/// Compressors finish their output when dropped, where they can not report
+/// errors (and may panic if there are any).
+struct ErrorLatchWriter<W: Write> {
+    inner: W,
+    error: Option<Error>,
+}
+
+impl<W: Write> ErrorLatchWriter<W> {
+    fn finish(mut self) -> Result<()> {
+        match self.error {
+            Some(e) => Err(e),
+            None => self.inner.flush(),
+        }
+    }
+}
+
+impl<W: Write> Write for ErrorLatchWriter<W> {
+    fn write(&mut self, buf: &[u8]) -> Result<usize> {
+        if self.error.is_none() {
+            if let Err(e) = self.inner.write_all(buf) {
+                self.error = Some(e);
+            }
+        }
+        Ok(buf.len())
+    }
+
+    fn flush(&mut self) -> Result<()> {
+        if self.error.is_none() {
+            if let Err(e) = self.inner.flush() {
+                self.error = Some(e);
+            }
+        }
         Ok(())
     }
 }
-- 
2.43.0


From f002d830b8aa2dda049bf40f39451721b4d9789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 15/41] fix: report errors when flushing written metadata

---
 src/storage.rs          | 15 +++++++++------
 src/store/filesystem.rs |  6 ++++--
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index b148d47..2f8f5d1 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -398,8 +398,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
             }
         }
         if merged != existing {
-            self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, &merged)?)
+            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
+                serde_json::to_writer(&mut writer, &merged)?;
+                writer.flush()
             })?;
         }
         Ok(())
@@ -421,8 +422,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         } else if self.exists(metadata_key.to_str().expect("TODO"))? {
             Ok(())
         } else {
-            self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, &GroupMetadata::default())?)
+            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
+                serde_json::to_writer(&mut writer, &GroupMetadata::default())?;
+                writer.flush()
             })
         }
     }
@@ -443,8 +445,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
                 "Node already exists at array path",
             ))
         } else {
-            self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, array_meta)?)
+            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
+                serde_json::to_writer(&mut writer, array_meta)?;
+                writer.flush()
             })
         }
     }
diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 9fa9182..3242bba 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -10,6 +10,7 @@ use std::io::{
     Error,
     ErrorKind,
     Result,
+    Write,
 };
 use std::path::PathBuf;
 
@@ -97,8 +98,9 @@ impl FilesystemHierarchy {
                 .open(entry_point_path)?;
             file.lock_exclusive()?;
 
-            let writer = BufWriter::new(file);
-            serde_json::to_writer(writer, &metadata)?;
+            let mut writer = BufWriter::new(file);
+            serde_json::to_writer(&mut writer, &metadata)?;
+            writer.flush()?;
             metadata
         };
 
-- 
2.43.0


From e750321ff7c52ebefa02e5d730786929c1736095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 16/41] fix: interpret fill values of floating point types

---
 src/data_type.rs | 31 ++++++++++++++++++++++++++++---
 src/lib.rs       |  2 +-
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 938aba2..15094f9 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -470,6 +470,22 @@ pub trait ReflectedType:
             vec![Self::default(); num_el as usize],
         )
     }
+
+    /// Interpret a metadata `fill_value` as an element of this type.
+    fn from_fill_value(value: &serde_json::Value) -> Result<Self, serde_json::Error> {
+        serde_json::from_value(value.clone())
+    }
+}
+
+/// Interpret a `fill_value` for a floating point type, which may be one of the
+/// strings for values that are not JSON numbers.
+fn float_from_fill_value(value: &serde_json::Value) -> Result<f64, serde_json::Error> {
+    match value.as_str() {
+        Some("NaN") => Ok(std::f64::NAN),
+        Some("Infinity") => Ok(std::f64::INFINITY),
+        Some("-Infinity") => Ok(std::f64::NEG_INFINITY),
+        _ => serde_json::from_value(value.clone()),
+    }
 }
 
 macro_rules! reflected_type {
@@ -478,6 +494,15 @@ macro_rules! reflected_type {
             const ZARR_TYPE: DataType = $d_name;
         }
     };
+    ($d_name:expr, $d_type:ty, $from_f64:expr) => {
+        impl ReflectedType for $d_type {
+            const ZARR_TYPE: DataType = $d_name;
+
+            fn from_fill_value(value: &serde_json::Value) -> Result<Self, serde_json::Error> {
+                float_from_fill_value(value).map($from_f64)
+            }
+        }
+    };
 }
 
 #[rustfmt::skip] reflected_type!(DataType::Bool, bool);
@@ -489,9 +514,9 @@ macro_rules! reflected_type {
 #[rustfmt::skip] reflected_type!(DataType::Int {size: IntSize::B2, endian: NATIVE_ENDIAN}, i16);
 #[rustfmt::skip] reflected_type!(DataType::Int {size: IntSize::B4, endian: NATIVE_ENDIAN}, i32);
 #[rustfmt::skip] reflected_type!(DataType::Int {size: IntSize::B8, endian: NATIVE_ENDIAN}, i64);
-#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B2, endian: NATIVE_ENDIAN}, f16);
-#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B4, endian: NATIVE_ENDIAN}, f32);
-#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B8, endian: NATIVE_ENDIAN}, f64);
+#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B2, endian: NATIVE_ENDIAN}, f16, f16::from_f64);
+#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B4, endian: NATIVE_ENDIAN}, f32, |v| v as f32);
+#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B8, endian: NATIVE_ENDIAN}, f64, |v| v);
 
 // TODO: As example
 #[rustfmt::skip] reflected_type!(DataType::Raw {size: 8}, [u8; 1]);
diff --git a/src/lib.rs b/src/lib.rs
index a65ed50..a8e1481 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -448,7 +448,7 @@ impl ArrayMetadata {
     pub fn get_effective_fill_value<T: ReflectedType>(&self) -> Result<T, Error> {
         Ok(self
             .get_fill_value()
-            .map(|v| serde_json::from_value(v.clone()))
+            .map(|v| T::from_fill_value(v))
             .transpose()?
             .unwrap_or_else(T::default))
     }
-- 
2.43.0


From 0c9a7889894a143bdff749ea5c47e1e971f995a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 17/41] fix: do not panic on xz and bzip2 configurations out of
 range

---
 src/compression/bzip.rs | 13 ++++++++++++-
 src/compression/xz.rs   | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/compression/bzip.rs b/src/compression/bzip.rs
index f2741d4..df4fd99 100644
--- a/src/compression/bzip.rs
+++ b/src/compression/bzip.rs
@@ -24,6 +24,17 @@ fn default_bzip_block_size() -> u8 {
     9
 }
 
+impl Bzip2Compression {
+    /// Use the default block size if the configured one is not in [1, 9].
+    fn get_effective_block_size(&self) -> u8 {
+        if self.block_size < 1 || self.block_size > 9 {
+            default_bzip_block_size()
+        } else {
+            self.block_size
+        }
+    }
+}
+
 impl Default for Bzip2Compression {
     fn default() -> Bzip2Compression {
         Bzip2Compression {
@@ -40,7 +51,7 @@ impl Compression for Bzip2Compression {
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
         Box::new(BzEncoder::new(
             w,
-            BzCompression::new(u32::from(self.block_size)),
+            BzCompression::new(u32::from(self.get_effective_block_size())),
         ))
     }
 }
diff --git a/src/compression/xz.rs b/src/compression/xz.rs
index d2e13b5..1b57c1e 100644
--- a/src/compression/xz.rs
+++ b/src/compression/xz.rs
@@ -23,6 +23,17 @@ fn default_xz_preset() -> i32 {
     6
 }
 
+impl XzCompression {
+    /// Use the default preset if the configured preset is not in [0, 9].
+    fn get_effective_preset(&self) -> u32 {
+        if self.preset < 0 || self.preset > 9 {
+            default_xz_preset() as u32
+        } else {
+            self.preset as u32
+        }
+    }
+}
+
 impl Default for XzCompression {
     fn default() -> XzCompression {
         XzCompression {
@@ -37,8 +48,7 @@ impl Compression for XzCompression {
     }
 
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
-        // TODO: check that preset is non-negative.s
-        Box::new(XzEncoder::new(w, self.preset as u32))
+        Box::new(XzEncoder::new(w, self.get_effective_preset()))
     }
 }
 
-- 
2.43.0


From 16ff95d4ac417cc1f31afae9dbc99a935b543fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:02 +0000
Subject: [PATCH 18/41] fix: treat keys erased concurrently as missing

---
 src/store/filesystem.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 3242bba..d4a30a3 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -204,7 +204,11 @@ impl ReadableStore for FilesystemHierarchy {
     fn get(&self, key: &str) -> Result<Option<Self::GetReader>> {
         let target = self.get_path(key)?;
         if target.is_file() {
-            let file = File::open(target)?;
+            let file = match File::open(target) {
+                // The file may have been erased since.
+                Err(ref e) if e.kind() == ErrorKind::NotFound => return Ok(None),
+                file => file?,
+            };
             file.lock_shared()?;
             Ok(Some(BufReader::new(file)))
         } else {
@@ -286,9 +290,15 @@ impl WriteableStore for FilesystemHierarchy {
         let path = self.get_path(key)?;
 
         if path.exists() {
-            let file = File::open(&path)?;
-            file.lock_exclusive()?;
-            fs::remove_file(&path)?;
+            let removed = File::open(&path).and_then(|file| {
+                file.lock_exclusive()?;
+                fs::remove_file(&path)
+            });
+            match removed {
+                // The file may have been erased since.
+                Err(ref e) if e.kind() == ErrorKind::NotFound => (),
+                removed => removed?,
+            }
         }
 
         Ok(!path.exists())
-- 
2.43.0


From 9935c9d8fd7a7d5f82d8b86c9fd60c5c201dc985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:02 +0000
Subject: [PATCH 19/41] fix: list no nodes below a node without children

---
 src/store/filesystem.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index d4a30a3..6c2d0bc 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -235,6 +235,11 @@ impl ListableStore for FilesystemHierarchy {
         let mut prefixes = vec![];
         let target = self.get_path(prefix)?;
 
+        // A prefix without keys is empty rather than an error.
+        if !target.exists() {
+            return Ok((keys, prefixes));
+        }
+
         // TODO: shouldn't do this in a closure to not equivocate errors with Nones.
         let entries = fs::read_dir(target)?.filter_map(|e| {
             e.and_then(|file| {
-- 
2.43.0


From 207a1dacfb0a18cd523ac2ba3b96c1b758b0cda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:02 +0000
Subject: [PATCH 20/41] fix: reject array metadata with an invalid chunk grid

---
 src/storage.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index 2f8f5d1..d517610 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -29,6 +29,7 @@ use crate::{
     MetadataError,
     ReflectedType,
     StoreNodeMetadata,
+    REGULAR_GRID_TYPE,
 };
 
 pub trait ReadableStore {
@@ -175,6 +176,15 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
             // way around.
             return Err(MetadataError::UnknownRequiredExtension(ext.clone()).into());
         }
+        if metadata.chunk_grid.grid_type != REGULAR_GRID_TYPE
+            || metadata.shape.len() != metadata.chunk_grid.chunk_shape.len()
+            || metadata.chunk_grid.chunk_shape.contains(&0)
+        {
+            return Err(Error::new(
+                ErrorKind::InvalidData,
+                "Array metadata does not have a regular chunk grid matching its shape",
+            ));
+        }
         Ok(metadata)
     }
 
-- 
2.43.0


From f1e179307b6dad7a90e8abdc160f5b20d3900925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 21/41] fix: compress chunks as a single frame with lz_pure

---
 src/compression/lz_pure.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/compression/lz_pure.rs b/src/compression/lz_pure.rs
index e896e0c..c45a542 100644
--- a/src/compression/lz_pure.rs
+++ b/src/compression/lz_pure.rs
@@ -15,20 +15,29 @@ use serde::{
 
 use super::Compression;
 
+// Kludge to compress on Drop. `lz_fear` compresses a complete frame at once.
 struct Wrapper<W: Write> {
     writer: W,
     settings: CompressionSettings<'static>,
+    buffer: Vec<u8>,
 }
 
 impl<W: Write> Write for Wrapper<W> {
     fn write(&mut self, buffer: &[u8]) -> Result<usize> {
-        let len = buffer.len();
-        self.settings.compress(buffer, &mut self.writer)?;
-        Ok(len)
+        self.buffer.extend_from_slice(buffer);
+        Ok(buffer.len())
     }
 
     fn flush(&mut self) -> Result<()> {
-        self.writer.flush()
+        Ok(())
+    }
+}
+
+impl<W: Write> Drop for Wrapper<W> {
+    fn drop(&mut self) {
+        self.settings
+            .compress(&self.buffer[..], &mut self.writer)
+            .unwrap();
     }
 }
 
@@ -65,7 +74,11 @@ impl Compression for Lz4Compression {
         settings
             .block_size(self.block_size as usize)
             .independent_blocks(true);
-        Box::new(Wrapper { writer, settings })
+        Box::new(Wrapper {
+            writer,
+            settings,
+            buffer: vec![],
+        })
     }
 }
 
-- 
2.43.0


From ef61ffea83491337a9cbfa2b4f91808da445402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 22/41] fix: use LZ4 block sizes that exist with lz_pure

---
 src/compression/lz_pure.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/compression/lz_pure.rs b/src/compression/lz_pure.rs
index c45a542..a7fffab 100644
--- a/src/compression/lz_pure.rs
+++ b/src/compression/lz_pure.rs
@@ -48,6 +48,19 @@ pub struct Lz4Compression {
     block_size: i32,
 }
 
+impl Lz4Compression {
+    /// LZ4 frames only have some block sizes, so choose the smallest larger
+    /// size of those.
+    fn get_effective_block_size(&self) -> usize {
+        const MAX_BLOCK_SIZES: [i32; 3] = [65_536, 262_144, 1_048_576];
+        MAX_BLOCK_SIZES
+            .iter()
+            .cloned()
+            .find(|&size| self.block_size <= size)
+            .unwrap_or(4_194_304) as usize
+    }
+}
+
 fn default_lz4_block_size() -> i32 {
     65_536
 }
@@ -72,7 +85,7 @@ impl Compression for Lz4Compression {
     fn encoder<'a, W: Write + 'a>(&self, writer: W) -> Box<dyn Write + 'a> {
         let mut settings = CompressionSettings::default();
         settings
-            .block_size(self.block_size as usize)
+            .block_size(self.get_effective_block_size())
             .independent_blocks(true);
         Box::new(Wrapper {
             writer,
-- 
2.43.0


From d70976764dbde5d2a17643394ba764c2a982f839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 23/41] fix: report malformed frames as errors with lz_pure

---
 src/compression/lz_pure.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/compression/lz_pure.rs b/src/compression/lz_pure.rs
index a7fffab..5d8512b 100644
--- a/src/compression/lz_pure.rs
+++ b/src/compression/lz_pure.rs
@@ -1,4 +1,6 @@
 use std::io::{
+    Error,
+    ErrorKind,
     Read,
     Result,
     Write,
@@ -15,6 +17,18 @@ use serde::{
 
 use super::Compression;
 
+/// Reader reporting that there is no valid LZ4 frame to read.
+struct FailedReader(Option<Error>);
+
+impl Read for FailedReader {
+    fn read(&mut self, _buffer: &mut [u8]) -> Result<usize> {
+        Err(self
+            .0
+            .take()
+            .unwrap_or_else(|| Error::from(ErrorKind::InvalidData)))
+    }
+}
+
 // Kludge to compress on Drop. `lz_fear` compresses a complete frame at once.
 struct Wrapper<W: Write> {
     writer: W,
@@ -75,11 +89,10 @@ impl Default for Lz4Compression {
 
 impl Compression for Lz4Compression {
     fn decoder<'a, R: Read + 'a>(&self, r: R) -> Box<dyn Read + 'a> {
-        Box::new(
-            LZ4FrameReader::new(r)
-                .expect("TODO: LZ4 returns a result here")
-                .into_read(),
-        )
+        match LZ4FrameReader::new(r) {
+            Ok(reader) => Box::new(reader.into_read()),
+            Err(e) => Box::new(FailedReader(Some(e.into()))),
+        }
     }
 
     fn encoder<'a, W: Write + 'a>(&self, writer: W) -> Box<dyn Write + 'a> {
-- 
2.43.0


From 59a3a7147df2863b44084cd322d97f121eac94f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 24/41] fix: list the keys in, not those prefixed by, a node

---
 src/storage.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index d517610..b70a440 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -329,11 +329,15 @@ impl<S: ListableStore + Hierarchy> HierarchyLister for S {
     fn list_nodes(&self, prefix_path: &str) -> Result<Vec<String>, Error> {
         // TODO: Inelegant.
 
-        let key_prefix = format!(
+        let mut key_prefix = format!(
             "{}/{}",
             crate::META_ROOT_PATH,
             crate::canonicalize_path(prefix_path)
         );
+        // Without a trailing slash siblings sharing the prefix would be listed.
+        if !key_prefix.ends_with('/') {
+            key_prefix.push('/');
+        }
         let (mut keys, mut prefixes) = self.list_dir(&key_prefix)?;
 
         // Find array and group metadata keys.
-- 
2.43.0


From 89d9fb49fed7ad42ccfe1a24663536bfb3293f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:49 +0000
Subject: [PATCH 25/41] fix: list keys below prefixes without a trailing slash

---
 src/store/filesystem.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 6c2d0bc..958df4a 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -240,12 +240,18 @@ impl ListableStore for FilesystemHierarchy {
             return Ok((keys, prefixes));
         }
 
+        let separator = if prefix.is_empty() || prefix.ends_with('/') {
+            ""
+        } else {
+            "/"
+        };
+
         // TODO: shouldn't do this in a closure to not equivocate errors with Nones.
         let entries = fs::read_dir(target)?.filter_map(|e| {
             e.and_then(|file| {
                 fs::metadata(file.path()).map(|f| f.file_type()).map(|t| {
                     (
-                        format!("{}{}", prefix, file.file_name().to_str().unwrap()),
+                        format!("{}{}{}", prefix, separator, file.file_name().to_str().unwrap()),
                         t,
                     )
                 })
-- 
2.43.0


From 7dea91e7599f6e1f4506362b306ca6885fe1044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:51 +0000
Subject: [PATCH 26/41] fix: verify the end of chunks when reading them

Only as many bytes as the elements of a chunk need were decompressed, so
that checksums of corrupted or truncated values were never verified, and
longer values were accepted.
---
 src/chunk.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/chunk.rs b/src/chunk.rs
index 6cc0465..757cdd3 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -286,6 +286,25 @@ pub(crate) fn check_chunk<T: ReflectedType, B: DataChunk<T>>(
     Ok(())
 }
 
+/// Check that nothing follows the elements of a chunk.
+///
+/// Decompressors only verify the end of their input when it is reached.
+fn check_exhausted<R: Read>(mut source: R) -> Result<()> {
+    loop {
+        match source.read(&mut [0]) {
+            Ok(0) => return Ok(()),
+            Ok(_) => {
+                return Err(Error::new(
+                    ErrorKind::InvalidData,
+                    "Chunk has more elements than expected",
+                ))
+            }
+            Err(ref e) if e.kind() == ErrorKind::Interrupted => (),
+            Err(e) => return Err(e),
+        }
+    }
+}
+
 /// Reads chunks from rust readers.
 pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     fn read_chunk(
@@ -302,6 +321,7 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
             T::create_data_chunk(&grid_position, array_meta.get_chunk_num_elements() as u32);
         let mut decompressed = array_meta.compressor.decoder(buffer);
         chunk.read_data(&mut decompressed, array_meta)?;
+        check_exhausted(&mut decompressed)?;
 
         Ok(chunk)
     }
@@ -317,6 +337,7 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
         chunk.reinitialize(&grid_position, array_meta.get_chunk_num_elements() as u32);
         let mut decompressed = array_meta.compressor.decoder(buffer);
         chunk.read_data(&mut decompressed, array_meta)?;
+        check_exhausted(&mut decompressed)?;
 
         Ok(())
     }
-- 
2.43.0


From 114f8691375f6d5163b33f1c25820ca7b8424c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 27/41] fix: reject raw data types with a sign

---
 src/data_type.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 15094f9..69d6fea 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -184,7 +184,8 @@ impl<'de> serde::de::Visitor<'de> for DataTypeVisitor {
             },
             dtype if dtype.starts_with('r') => {
                 if let Ok(size) = dtype[1..].parse::<usize>() {
-                    if size % 8 == 0 {
+                    // Parsing also accepts a leading sign.
+                    if size % 8 == 0 && !dtype.contains('+') {
                         DataType::Raw { size }
                     } else {
                         // TODO: more specific error?
-- 
2.43.0


From 053a47e0755eb993d30949110bc66902ecccadbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 28/41] fix: reject chunk shapes of more elements than chunks
 can have

---
 src/storage.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index b70a440..8144c0f 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -179,10 +179,17 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         if metadata.chunk_grid.grid_type != REGULAR_GRID_TYPE
             || metadata.shape.len() != metadata.chunk_grid.chunk_shape.len()
             || metadata.chunk_grid.chunk_shape.contains(&0)
+            // Numbers of elements of chunks are limited to `u32`.
+            || metadata
+                .chunk_grid
+                .chunk_shape
+                .iter()
+                .try_fold(1u32, |n, &d| n.checked_mul(d))
+                .is_none()
         {
             return Err(Error::new(
                 ErrorKind::InvalidData,
-                "Array metadata does not have a regular chunk grid matching its shape",
+                "Array metadata does not have a supported chunk grid matching its shape",
             ));
         }
         Ok(metadata)
-- 
2.43.0


From 1024134c4ef491b4af3f40b95fe018378bf2cc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 29/41] fix: report metadata documents that are not objects
 when listing attributes

---
 src/storage.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 8144c0f..9466e54 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -319,11 +319,8 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         // For now return an error.
         let value_reader = ReadableStore::get(self, &metadata_key.to_str().expect("TODO"))?
             .ok_or_else(|| Error::from(ErrorKind::NotFound))?;
-        let mut value: serde_json::Value = serde_json::from_reader(value_reader)?;
-        let attrs = match value
-            .as_object_mut()
-            .and_then(|o| o.remove(ATTRIBUTES_NAME))
-        {
+        let mut value: JsonObject = serde_json::from_reader(value_reader)?;
+        let attrs = match value.remove(ATTRIBUTES_NAME) {
             Some(Value::Object(map)) => map,
             Some(v) => return Err(MetadataError::UnexpectedType(v).into()),
             _ => JsonObject::new(),
-- 
2.43.0


From 386987f8b9e98f600c0c73482b9d59687c57771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:27 +0000
Subject: [PATCH 30/41] fix: report LZ4 frames that end prematurely

---
 src/compression/lz.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/compression/lz.rs b/src/compression/lz.rs
index e327c09..1fd8ceb 100644
--- a/src/compression/lz.rs
+++ b/src/compression/lz.rs
@@ -1,4 +1,6 @@
 use std::io::{
+    Error,
+    ErrorKind,
     Read,
     Result,
     Write,
@@ -42,6 +44,26 @@ impl<W: Write> Drop for Wrapper<W> {
     }
 }
 
+/// Reader reporting frames that end prematurely. `Decoder` does not distinguish
+/// the end of its input from that of the frame until it is finished.
+struct FrameReader<R: Read> {
+    d: Option<Decoder<R>>,
+}
+
+impl<R: Read> Read for FrameReader<R> {
+    fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
+        let n = match self.d.as_mut() {
+            Some(d) => d.read(buffer)?,
+            None => return Ok(0),
+        };
+        if n == 0 && !buffer.is_empty() {
+            let (_, result) = self.d.take().unwrap().finish();
+            result.map_err(|e| Error::new(ErrorKind::UnexpectedEof, e))?;
+        }
+        Ok(n)
+    }
+}
+
 #[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
 #[serde(rename_all = "camelCase")]
 pub struct Lz4Compression {
@@ -79,7 +101,9 @@ impl Default for Lz4Compression {
 
 impl Compression for Lz4Compression {
     fn decoder<'a, R: Read + 'a>(&self, r: R) -> Box<dyn Read + 'a> {
-        Box::new(Decoder::new(r).expect("TODO: LZ4 returns a result here"))
+        Box::new(FrameReader {
+            d: Some(Decoder::new(r).expect("TODO: LZ4 returns a result here")),
+        })
     }
 
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
-- 
2.43.0


From 7f17743c68ec250a20025dc84723061d57d21601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:58 +0000
Subject: [PATCH 31/41] fix: open hierarchies whose creation is interrupted or
 in progress

---
 src/store/filesystem.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 958df4a..69d1450 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -50,7 +50,9 @@ impl Hierarchy for FilesystemHierarchy {
 impl FilesystemHierarchy {
     fn read_entry_point_metadata(base_path: &PathBuf) -> Result<EntryPointMetadata> {
         let entry_point_path = base_path.join(crate::ENTRY_POINT_KEY);
-        let reader = BufReader::new(File::open(entry_point_path)?);
+        let file = File::open(entry_point_path)?;
+        file.lock_shared()?;
+        let reader = BufReader::new(file);
         let metadata: EntryPointMetadata = serde_json::from_reader(reader)?;
         if let Some(ext) = metadata.extensions.iter().find(|e| e.must_understand) {
             // TODO: returning an io::Error wrapped custom error, rather than other
@@ -86,7 +88,11 @@ impl FilesystemHierarchy {
         let base_path = PathBuf::from(base_path.as_ref());
         let entry_point_path = base_path.join(crate::ENTRY_POINT_KEY);
 
-        let entry_point_metadata = if entry_point_path.exists() {
+        // An empty entry point is one whose creation was interrupted, or is not
+        // finished yet.
+        let is_written = |path: &PathBuf| fs::metadata(path).map_or(false, |m| m.len() > 0);
+
+        let entry_point_metadata = if is_written(&entry_point_path) {
             Self::read_entry_point_metadata(&base_path)?
         } else {
             fs::create_dir_all(&base_path)?;
@@ -95,13 +101,18 @@ impl FilesystemHierarchy {
                 .read(true)
                 .write(true)
                 .create(true)
-                .open(entry_point_path)?;
+                .open(&entry_point_path)?;
             file.lock_exclusive()?;
 
-            let mut writer = BufWriter::new(file);
-            serde_json::to_writer(&mut writer, &metadata)?;
-            writer.flush()?;
-            metadata
+            if is_written(&entry_point_path) {
+                drop(file);
+                Self::read_entry_point_metadata(&base_path)?
+            } else {
+                let mut writer = BufWriter::new(file);
+                serde_json::to_writer(&mut writer, &metadata)?;
+                writer.flush()?;
+                metadata
+            }
         };
 
         let reader = FilesystemHierarchy {
-- 
2.43.0


From b611b07333437ea89c32fb3e57738105f195f91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:28 +0000
Subject: [PATCH 32/41] fix: reject fill values outside the range of floating
 point types

---
 src/data_type.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 69d6fea..f842cc9 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -500,7 +500,15 @@ macro_rules! reflected_type {
             const ZARR_TYPE: DataType = $d_name;
 
             fn from_fill_value(value: &serde_json::Value) -> Result<Self, serde_json::Error> {
-                float_from_fill_value(value).map($from_f64)
+                let number = float_from_fill_value(value)?;
+                let element: Self = $from_f64(number);
+                if element.is_infinite() && number.is_finite() {
+                    return Err(serde::de::Error::invalid_value(
+                        serde::de::Unexpected::Float(number),
+                        &"a number in the range of the data type",
+                    ));
+                }
+                Ok(element)
             }
         }
     };
@@ -516,8 +524,8 @@ macro_rules! reflected_type {
 #[rustfmt::skip] reflected_type!(DataType::Int {size: IntSize::B4, endian: NATIVE_ENDIAN}, i32);
 #[rustfmt::skip] reflected_type!(DataType::Int {size: IntSize::B8, endian: NATIVE_ENDIAN}, i64);
 #[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B2, endian: NATIVE_ENDIAN}, f16, f16::from_f64);
-#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B4, endian: NATIVE_ENDIAN}, f32, |v| v as f32);
-#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B8, endian: NATIVE_ENDIAN}, f64, |v| v);
+#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B4, endian: NATIVE_ENDIAN}, f32, |v: f64| v as f32);
+#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B8, endian: NATIVE_ENDIAN}, f64, |v: f64| v);
 
 // TODO: As example
 #[rustfmt::skip] reflected_type!(DataType::Raw {size: 8}, [u8; 1]);
-- 
2.43.0


From ebe30fbbc9e3388b0d33e77c89c9556be12e4477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:55 +0000
Subject: [PATCH 33/41] fix: refuse entry points whose format URI names no
 version

---
 src/storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index 9466e54..0896864 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -150,6 +150,8 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
             .zarr_format
             .rsplit('/')
             .next()
+            // An empty version would match every version.
+            .filter(|vers_str| !vers_str.is_empty())
             .ok_or_else(|| {
                 Error::new(
                     ErrorKind::InvalidData,
-- 
2.43.0


From 1d844c98b03a52416d472cda5067d4e3a86dc271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:41 +0000
Subject: [PATCH 34/41] fix: do not erase files that replaced the one locked

Erasing a key waits for the lock of the file it opened.  Meanwhile that file
may have been erased, and another one created at the same path, on which
someone else may hold a lock.
---
 src/store/filesystem.rs | 48 ++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 69d1450..2ad627f 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -202,6 +202,40 @@ impl FilesystemHierarchy {
 
         Ok(self.base_path.join(unrooted_path))
     }
+
+    /// Remove a file once no one else holds a lock on it.
+    fn remove_unlocked(path: &std::path::Path) -> Result<()> {
+        loop {
+            let file = match File::open(path) {
+                // The file may have been erased since.
+                Err(ref e) if e.kind() == ErrorKind::NotFound => return Ok(()),
+                file => file?,
+            };
+            file.lock_exclusive()?;
+            // While waiting for the lock, the file may have been erased, and
+            // another one created which others may hold a lock on.
+            if Self::is_same_file(&file, path)? {
+                return fs::remove_file(path);
+            }
+        }
+    }
+
+    #[cfg(unix)]
+    fn is_same_file(file: &File, path: &std::path::Path) -> Result<bool> {
+        use std::os::unix::fs::MetadataExt;
+
+        let opened = file.metadata()?;
+        match fs::metadata(path) {
+            Ok(current) => Ok(opened.dev() == current.dev() && opened.ino() == current.ino()),
+            Err(ref e) if e.kind() == ErrorKind::NotFound => Ok(false),
+            Err(e) => Err(e),
+        }
+    }
+
+    #[cfg(not(unix))]
+    fn is_same_file(_file: &File, _path: &std::path::Path) -> Result<bool> {
+        Ok(true)
+    }
 }
 
 impl ReadableStore for FilesystemHierarchy {
@@ -312,15 +346,7 @@ impl WriteableStore for FilesystemHierarchy {
         let path = self.get_path(key)?;
 
         if path.exists() {
-            let removed = File::open(&path).and_then(|file| {
-                file.lock_exclusive()?;
-                fs::remove_file(&path)
-            });
-            match removed {
-                // The file may have been erased since.
-                Err(ref e) if e.kind() == ErrorKind::NotFound => (),
-                removed => removed?,
-            }
+            Self::remove_unlocked(&path)?;
         }
 
         Ok(!path.exists())
@@ -336,9 +362,7 @@ impl WriteableStore for FilesystemHierarchy {
                 if entry.file_type().is_dir() {
                     fs::remove_dir(entry.path())?;
                 } else {
-                    let file = File::open(entry.path())?;
-                    file.lock_exclusive()?;
-                    fs::remove_file(entry.path())?;
+                    Self::remove_unlocked(entry.path())?;
                 }
             }
         }
-- 
2.43.0


From 76547a5b9c743672c896b5994baf8beb17273ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:46 +0000
Subject: [PATCH 35/41] fix: treat what is erased concurrently as erased when
 erasing a prefix

---
 src/store/filesystem.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 2ad627f..66c500d 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -357,10 +357,21 @@ impl WriteableStore for FilesystemHierarchy {
 
         if path.exists() {
             for entry in WalkDir::new(&path).contents_first(true) {
-                let entry = entry?;
+                // What is being erased by others need not be erased.
+                let entry = match entry {
+                    Err(ref e)
+                        if e.io_error().map(|e| e.kind()) == Some(ErrorKind::NotFound) =>
+                    {
+                        continue
+                    }
+                    entry => entry?,
+                };
 
                 if entry.file_type().is_dir() {
-                    fs::remove_dir(entry.path())?;
+                    match fs::remove_dir(entry.path()) {
+                        Err(ref e) if e.kind() == ErrorKind::NotFound => (),
+                        removed => removed?,
+                    }
                 } else {
                     Self::remove_unlocked(entry.path())?;
                 }
-- 
2.43.0


From 886c2ffee2cb77eaf5c45069d0fb220e3aa3e5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:35 +0000
Subject: [PATCH 36/41] fix: do not take failures to look at a path as its
 absence

---
 src/store/filesystem.rs | 61 +++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 66c500d..f013649 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -90,9 +90,11 @@ impl FilesystemHierarchy {
 
         // An empty entry point is one whose creation was interrupted, or is not
         // finished yet.
-        let is_written = |path: &PathBuf| fs::metadata(path).map_or(false, |m| m.len() > 0);
+        let is_written = |path: &PathBuf| -> Result<bool> {
+            Ok(Self::metadata_at(path)?.map_or(false, |m| m.len() > 0))
+        };
 
-        let entry_point_metadata = if is_written(&entry_point_path) {
+        let entry_point_metadata = if is_written(&entry_point_path)? {
             Self::read_entry_point_metadata(&base_path)?
         } else {
             fs::create_dir_all(&base_path)?;
@@ -104,7 +106,7 @@ impl FilesystemHierarchy {
                 .open(&entry_point_path)?;
             file.lock_exclusive()?;
 
-            if is_written(&entry_point_path) {
+            if is_written(&entry_point_path)? {
                 drop(file);
                 Self::read_entry_point_metadata(&base_path)?
             } else {
@@ -203,6 +205,23 @@ impl FilesystemHierarchy {
         Ok(self.base_path.join(unrooted_path))
     }
 
+    /// Get the metadata of the file or directory at a path, if there is one.
+    ///
+    /// Unlike `Path::exists` or `is_file` this does not take any failure as
+    /// there being none.
+    fn metadata_at(path: &std::path::Path) -> Result<Option<fs::Metadata>> {
+        match fs::metadata(path) {
+            Ok(metadata) => Ok(Some(metadata)),
+            Err(e) => match e.kind() {
+                ErrorKind::NotFound
+                | ErrorKind::NotADirectory
+                | ErrorKind::InvalidFilename
+                | ErrorKind::InvalidInput => Ok(None),
+                _ => Err(e),
+            },
+        }
+    }
+
     /// Remove a file once no one else holds a lock on it.
     fn remove_unlocked(path: &std::path::Path) -> Result<()> {
         loop {
@@ -243,12 +262,12 @@ impl ReadableStore for FilesystemHierarchy {
 
     fn exists(&self, key: &str) -> Result<bool> {
         let target = self.get_path(key)?;
-        Ok(target.is_file())
+        Ok(Self::metadata_at(&target)?.map_or(false, |m| m.is_file()))
     }
 
     fn get(&self, key: &str) -> Result<Option<Self::GetReader>> {
         let target = self.get_path(key)?;
-        if target.is_file() {
+        if Self::metadata_at(&target)?.map_or(false, |m| m.is_file()) {
             let file = match File::open(target) {
                 // The file may have been erased since.
                 Err(ref e) if e.kind() == ErrorKind::NotFound => return Ok(None),
@@ -281,7 +300,7 @@ impl ListableStore for FilesystemHierarchy {
         let target = self.get_path(prefix)?;
 
         // A prefix without keys is empty rather than an error.
-        if !target.exists() {
+        if Self::metadata_at(&target)?.is_none() {
             return Ok((keys, prefixes));
         }
 
@@ -291,20 +310,16 @@ impl ListableStore for FilesystemHierarchy {
             "/"
         };
 
-        // TODO: shouldn't do this in a closure to not equivocate errors with Nones.
-        let entries = fs::read_dir(target)?.filter_map(|e| {
-            e.and_then(|file| {
-                fs::metadata(file.path()).map(|f| f.file_type()).map(|t| {
-                    (
-                        format!("{}{}{}", prefix, separator, file.file_name().to_str().unwrap()),
-                        t,
-                    )
-                })
-            })
-            .ok()
-        });
+        for entry in fs::read_dir(target)? {
+            let file = entry?;
+            let t = match fs::metadata(file.path()) {
+                Ok(f) => f.file_type(),
+                // The file may have been erased since.
+                Err(ref e) if e.kind() == ErrorKind::NotFound => continue,
+                Err(e) => return Err(e),
+            };
+            let key = format!("{}{}{}", prefix, separator, file.file_name().to_str().unwrap());
 
-        for (key, t) in entries {
             if t.is_file() {
                 keys.push(key);
             } else {
@@ -345,17 +360,17 @@ impl WriteableStore for FilesystemHierarchy {
     fn erase(&self, key: &str) -> Result<bool> {
         let path = self.get_path(key)?;
 
-        if path.exists() {
+        if Self::metadata_at(&path)?.is_some() {
             Self::remove_unlocked(&path)?;
         }
 
-        Ok(!path.exists())
+        Ok(Self::metadata_at(&path)?.is_none())
     }
 
     fn erase_prefix(&self, key_prefix: &str) -> Result<bool> {
         let path = self.get_path(key_prefix)?;
 
-        if path.exists() {
+        if Self::metadata_at(&path)?.is_some() {
             for entry in WalkDir::new(&path).contents_first(true) {
                 // What is being erased by others need not be erased.
                 let entry = match entry {
@@ -378,7 +393,7 @@ impl WriteableStore for FilesystemHierarchy {
             }
         }
 
-        Ok(!path.exists())
+        Ok(Self::metadata_at(&path)?.is_none())
     }
 }
 
-- 
2.43.0


From 2c2055965959c7506a2ae13b7d338290499f6f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:09 +0000
Subject: [PATCH 37/41] fix: write and erase values where an empty directory
 was left

Removing a node leaves the directories above it. Where one has the name of
a chunk of an array created there since, that chunk could neither be
written nor deleted.
---
 src/store/filesystem.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index f013649..c07694a 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -222,6 +222,18 @@ impl FilesystemHierarchy {
         }
     }
 
+    /// Remove a directory if there is nothing but directories below it, as
+    /// erasing leaves behind.
+    fn remove_empty_dir(path: &std::path::Path) -> Result<()> {
+        for entry in WalkDir::new(path).contents_first(true) {
+            match fs::remove_dir(entry?.path()) {
+                Err(ref e) if e.kind() == ErrorKind::NotFound => (),
+                removed => removed?,
+            }
+        }
+        Ok(())
+    }
+
     /// Remove a file once no one else holds a lock on it.
     fn remove_unlocked(path: &std::path::Path) -> Result<()> {
         loop {
@@ -343,11 +355,15 @@ impl WriteableStore for FilesystemHierarchy {
             }
         }
 
-        let file = fs::OpenOptions::new()
-            .read(true)
-            .write(true)
-            .create(true)
-            .open(target)?;
+        let mut options = fs::OpenOptions::new();
+        options.read(true).write(true).create(true);
+        let file = match options.open(&target) {
+            Err(ref e) if e.kind() == ErrorKind::IsADirectory => {
+                Self::remove_empty_dir(&target)?;
+                options.open(&target)?
+            }
+            file => file?,
+        };
         file.lock_exclusive()?;
         // Truncate after the lock is acquired, rather than on opening.
         file.set_len(0)?;
@@ -360,11 +376,12 @@ impl WriteableStore for FilesystemHierarchy {
     fn erase(&self, key: &str) -> Result<bool> {
         let path = self.get_path(key)?;
 
-        if Self::metadata_at(&path)?.is_some() {
+        // A directory is not a value.
+        if Self::metadata_at(&path)?.map_or(false, |m| !m.is_dir()) {
             Self::remove_unlocked(&path)?;
         }
 
-        Ok(Self::metadata_at(&path)?.is_none())
+        Ok(Self::metadata_at(&path)?.map_or(true, |m| m.is_dir()))
     }
 
     fn erase_prefix(&self, key_prefix: &str) -> Result<bool> {
-- 
2.43.0


From 4701f3b875a6f92d61afb3505765a9b018151082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:23 +0000
Subject: [PATCH 38/41] fix: nothing is listed below a key, rather than an
 error

---
 src/store/filesystem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index c07694a..3b9bcb5 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -312,7 +312,7 @@ impl ListableStore for FilesystemHierarchy {
         let target = self.get_path(prefix)?;
 
         // A prefix without keys is empty rather than an error.
-        if Self::metadata_at(&target)?.is_none() {
+        if !Self::metadata_at(&target)?.map_or(false, |m| m.is_dir()) {
             return Ok((keys, prefixes));
         }
 
-- 
2.43.0


From 75fbe9e1dbe622eb42c2c0bf95a111ac3403d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:21 +0000
Subject: [PATCH 39/41] fix: list only keys of metadata documents as nodes

Keys of other values that end in the name of a kind, like "subarray.json",
were listed as nodes, or made listing panic.
---
 src/storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 0896864..189bcf0 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -353,8 +353,9 @@ impl<S: ListableStore + Hierarchy> HierarchyLister for S {
         keys.iter_mut()
             .for_each(|k| k.truncate(k.len() - suffix.len()));
         keys.retain(|k| {
-            k.ends_with(&crate::ARRAY_METADATA_KEY_EXT)
-                || k.ends_with(&crate::GROUP_METADATA_KEY_EXT)
+            k.strip_suffix(crate::ARRAY_METADATA_KEY_EXT)
+                .or_else(|| k.strip_suffix(crate::GROUP_METADATA_KEY_EXT))
+                .map_or(false, |k| k.ends_with('.') && !k.ends_with("/."))
         });
         assert_eq!(
             crate::ARRAY_METADATA_KEY_EXT.len(),
-- 
2.43.0


From 0077579d1fbb7d93fa72180dcabb11f2c8b8e2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:44 +0000
Subject: [PATCH 40/41] fix: accept the name of LZ4 with lz_pure

---
 src/compression/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compression/mod.rs b/src/compression/mod.rs
index a30945c..9d505ed 100644
--- a/src/compression/mod.rs
+++ b/src/compression/mod.rs
@@ -147,7 +147,7 @@ impl std::str::FromStr for CompressionType {
             #[cfg(feature = "xz")]
             "xz" => Ok(Self::new::<xz::XzCompression>()),
 
-            #[cfg(feature = "lz")]
+            #[cfg(any(feature = "lz", feature = "lz_pure"))]
             "lz4" => Ok(Self::new::<lz::Lz4Compression>()),
 
             _ => Err(std::io::ErrorKind::InvalidInput.into()),
-- 
2.43.0


From 9242768630cd451b20125a4b8b6a9ceecce40322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:35 +0000
Subject: [PATCH 41/41] fix: skip files whose names are not unicode when
 listing

---
 src/store/filesystem.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 3b9bcb5..fbbe4a0 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -330,7 +330,11 @@ impl ListableStore for FilesystemHierarchy {
                 Err(ref e) if e.kind() == ErrorKind::NotFound => continue,
                 Err(e) => return Err(e),
             };
-            let key = format!("{}{}{}", prefix, separator, file.file_name().to_str().unwrap());
+            let key = match file.file_name().to_str() {
+                Some(name) => format!("{}{}{}", prefix, separator, name),
+                // Keys are unicode, so this is none.
+                None => continue,
+            };
 
             if t.is_file() {
                 keys.push(key);
-- 
2.43.0

