From 1ff692fa4e0cfe00fa4627024ee4221965a5a9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:35 +0000
Subject: [PATCH 01/24] fix: verify accepted an index equal to the array length

---
 src/verify.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/verify.rs b/src/verify.rs
index a68f0e8..2e45541 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -59,9 +59,9 @@ impl std::fmt::Debug for TMFIntegrityStatus {
     }
 }
 /// Checks if indices fit inside the array of *length*, returned None if so or Some(index) if not.
-fn indices_inside_array(array: &[IndexType], length: IndexType) -> Option<IndexType> {
+fn indices_inside_array(array: &[IndexType], length: usize) -> Option<IndexType> {
     for index in array {
-        if *index > length as IndexType {
+        if *index as usize >= length {
             return Some(*index);
         }
     }
@@ -77,7 +77,7 @@ fn verify_vertices(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
             }
         }
         Some(vertices) => match mesh.get_vertex_triangles() {
-            Some(triangles) => match indices_inside_array(triangles, vertices.len() as IndexType) {
+            Some(triangles) => match indices_inside_array(triangles, vertices.len()) {
                 Some(index) => Err(TMFIntegrityStatus::IndexOutsideVertexArray(
                     index,
                     vertices.len() as IndexType,
@@ -104,7 +104,7 @@ fn verify_uvs(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
                 }
             }
             match mesh.get_uv_triangles() {
-                Some(triangles) => match indices_inside_array(triangles, uvs.len() as IndexType) {
+                Some(triangles) => match indices_inside_array(triangles, uvs.len()) {
                     Some(index) => Err(TMFIntegrityStatus::IndexOutsideUVArray(
                         index,
                         uvs.len() as IndexType,
@@ -134,7 +134,7 @@ fn verify_normals(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
             }
             match mesh.get_normal_triangles() {
                 Some(triangles) => {
-                    match indices_inside_array(triangles, normals.len() as IndexType) {
+                    match indices_inside_array(triangles, normals.len()) {
                         Some(index) => Err(TMFIntegrityStatus::IndexOutsideNormalArray(
                             index,
                             normals.len() as IndexType,
-- 
2.43.0


From c014120c13822bb4d40e431aae490a563499edbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:40 +0000
Subject: [PATCH 02/24] fix: verify never reported UVs outside of the 0 to 1
 range

---
 src/verify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify.rs b/src/verify.rs
index 2e45541..dca17ba 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -99,7 +99,7 @@ fn verify_uvs(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
         }
         Some(uvs) => {
             for uv in uvs {
-                if uv.0 < 0.0 && uv.1 < 0.0 && uv.0 > 1.0 && uv.1 > 1.0 {
+                if !(uv.0 >= 0.0 && uv.1 >= 0.0 && uv.0 <= 1.0 && uv.1 <= 1.0) {
                     return Err(TMFIntegrityStatus::UVOutsideRange(uv.0, uv.1));
                 }
             }
-- 
2.43.0


From 460359aefc8f2db635bf3a5229e434cc0c5b50b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 03/24] fix: verify accepted normals that are not a number

---
 src/verify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify.rs b/src/verify.rs
index dca17ba..578f646 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -128,7 +128,7 @@ fn verify_normals(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
         }
         Some(normals) => {
             for normal in normals {
-                if (1.0 - magnitude(*normal)).abs() > 0.001 {
+                if !((1.0 - magnitude(*normal)).abs() <= 0.001) {
                     return Err(TMFIntegrityStatus::NormalsNotNormalized);
                 }
             }
-- 
2.43.0


From e22fb45d77e995c73ba17eea04451f3356d98df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 04/24] fix: the stored vertex bounding box mixed up its axes

---
 src/vertices.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 9f97f85..33149cd 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -44,10 +44,10 @@ pub fn save_tmf_vertices<W: Write>(
     //Get min and max x,y,z coords
     for vertex in vertices {
         min_x = min_x.min(vertex.0);
-        max_x = max_y.max(vertex.1);
-        min_y = min_z.min(vertex.2);
-        max_y = max_x.max(vertex.0);
-        min_z = min_y.min(vertex.1);
+        max_x = max_x.max(vertex.0);
+        min_y = min_y.min(vertex.1);
+        max_y = max_y.max(vertex.1);
+        min_z = min_z.min(vertex.2);
         max_z = max_z.max(vertex.2);
     }
     writer.write_all(&(min_x as f64).to_le_bytes())?;
@@ -67,7 +67,7 @@ pub fn save_tmf_vertices<W: Write>(
     //Calculate minimal increment
     let inc_x = (shortest_edge / sx) * precision.0;
     let inc_y = (shortest_edge / sy) * precision.0;
-    let inc_z = (shortest_edge / sy) * precision.0;
+    let inc_z = (shortest_edge / sz) * precision.0;
     //Calculate write precision
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
-- 
2.43.0


From c672e0290209688b1f145bf3ffce64aed14d29e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 05/24] fix: saving an empty vertex segment panicked

---
 src/vertices.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 33149cd..858bd3f 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -34,12 +34,13 @@ pub fn save_tmf_vertices<W: Write>(
     writer: &mut W,
     shortest_edge: FloatType,
 ) -> std::io::Result<()> {
-    let mut min_x = vertices[0].0;
-    let mut max_x = vertices[0].0;
-    let mut min_y = vertices[0].1;
-    let mut max_y = vertices[0].1;
-    let mut min_z = vertices[0].2;
-    let mut max_z = vertices[0].2;
+    let first = vertices.first().copied().unwrap_or((0.0, 0.0, 0.0));
+    let mut min_x = first.0;
+    let mut max_x = first.0;
+    let mut min_y = first.1;
+    let mut max_y = first.1;
+    let mut min_z = first.2;
+    let mut max_z = first.2;
     writer.write_all(&(vertices.len() as u64).to_le_bytes())?;
     //Get min and max x,y,z coords
     for vertex in vertices {
-- 
2.43.0


From 56e9d913f87231f0d2a06dc8a4b0d827d7996a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 06/24] fix: saving vertices with more than 31 bits of
 precision panicked

---
 src/vertices.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 858bd3f..1615bcd 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -73,18 +73,18 @@ pub fn save_tmf_vertices<W: Write>(
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
     let prec_z = (1.0 / inc_z).log2().ceil() as u8;
-    //Ensure precision is never below 1
-    let prec_x = prec_x.max(1);
-    let prec_y = prec_y.max(1);
-    let prec_z = prec_z.max(1);
+    //Ensure precision is never below 1, and never above what a reader accepts
+    let prec_x = prec_x.clamp(1, 63);
+    let prec_y = prec_y.clamp(1, 63);
+    let prec_z = prec_z.clamp(1, 63);
     // Write precision info
     writer.write_all(&[prec_x])?;
     writer.write_all(&[prec_y])?;
     writer.write_all(&[prec_z])?;
     // Calculate float save multiplier
-    let mul_x = ((1 << prec_x) - 1) as FloatType;
-    let mul_y = ((1 << prec_y) - 1) as FloatType;
-    let mul_z = ((1 << prec_z) - 1) as FloatType;
+    let mul_x = ((1_u64 << prec_x) - 1) as FloatType;
+    let mul_y = ((1_u64 << prec_y) - 1) as FloatType;
+    let mul_z = ((1_u64 << prec_z) - 1) as FloatType;
     // Create unaligned rw modes
     let prec_x = UnalignedRWMode::precision_bits(prec_x);
     let prec_y = UnalignedRWMode::precision_bits(prec_y);
-- 
2.43.0


From 79e7424eac27b93c6258e78db304ce271e7e4298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 07/24] fix: saving UVs with more than 31 bits of precision
 panicked

---
 src/uv.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uv.rs b/src/uv.rs
index 73b8db9..b9f649d 100644
--- a/src/uv.rs
+++ b/src/uv.rs
@@ -35,8 +35,9 @@ pub fn save_uvs<W: Write>(
     writer: &mut W,
     precision: UvPrecisionMode,
 ) -> std::io::Result<()> {
-    let precision = precision.0;
-    let multpiler = ((1 << precision) - 1) as FloatType;
+    // Readers refuse 64 bits or more
+    let precision = precision.0.min(63);
+    let multpiler = ((1_u64 << precision) - 1) as FloatType;
     writer.write_all(&[precision])?;
     writer.write_all(&(uvs.len() as u64).to_le_bytes())?;
     let precision = UnalignedRWMode::precision_bits(precision);
-- 
2.43.0


From 46e61f888de2c81810eca22ea5a082b1121c52fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 08/24] fix: saving normals or tangents with more than 31 bits
 of precision panicked

---
 src/normals.rs  | 4 +++-
 src/tangents.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/normals.rs b/src/normals.rs
index 9282d50..0b20608 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -68,7 +68,7 @@ pub(crate) fn normal_to_encoding(
     normal: Vector3,
     precision: &NormalPrecisionMode,
 ) -> (u64, u64, bool, bool, bool) {
-    let multiplier = ((1 << precision.0) - 1) as FloatType;
+    let multiplier = ((1_u64 << precision.0) - 1) as FloatType;
     //Calculate asine
     let xy = (normal.0.abs(), normal.1.abs());
     let xy_mag = (xy.0 * xy.0 + xy.1 * xy.1).sqrt();
@@ -158,6 +158,8 @@ pub(crate) fn save_normal_array<W: Write>(
     writer: &mut W,
     precision: NormalPrecisionMode,
 ) -> std::io::Result<()> {
+    // Readers refuse 64 bits or more
+    let precision = NormalPrecisionMode(precision.0.min(63));
     let count = (normals.len() as u64).to_le_bytes();
     writer.write_all(&count)?;
     writer.write_all(&[precision.0])?;
diff --git a/src/tangents.rs b/src/tangents.rs
index f90622d..f29d581 100644
--- a/src/tangents.rs
+++ b/src/tangents.rs
@@ -72,7 +72,9 @@ pub(crate) fn save_tangents<W: std::io::Write>(
 ) -> std::io::Result<()> {
     let count = (tangents.len() as u64).to_le_bytes();
     target.write_all(&count)?;
-    let bits_prec = prec.normal_precision().bits();
+    // Readers refuse 64 bits or more
+    let bits_prec = prec.normal_precision().bits().min(63);
+    let prec = TangentPrecisionMode::from_bits(bits_prec);
     target.write_all(&[bits_prec])?;
     let mut writer = UnalignedWriter::new(target);
     let bits_prec = UnalignedRWMode::precision_bits(bits_prec);
-- 
2.43.0


From 456ae2f2bd931326b5275798209d459ea09467a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 09/24] fix: saving custom data with more than 31 bits of
 precision panicked

---
 src/custom_data.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index ab95fe6..afb1b30 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -99,9 +99,9 @@ impl CustomData {
                 }
                 let span = max - min;
                 let prec = (span / prec).log2().ceil() as u8;
-                //Ensure precision is never 0(messes up the reader/writer);
-                let prec = prec.max(1);
-                let mul = ((1 << prec) - 1) as FloatType;
+                //Ensure precision is never 0(messes up the reader/writer), and never above what a reader accepts;
+                let prec = prec.clamp(1, 63);
+                let mul = ((1_u64 << prec) - 1) as FloatType;
                 target.write_all(&(data.len() as u64).to_le_bytes())?;
                 target.write_all(&(min as f64).to_le_bytes())?;
                 target.write_all(&(max as f64).to_le_bytes())?;
@@ -117,7 +117,9 @@ impl CustomData {
             Self::CustomColorRGBA(data, prec) => {
                 use crate::unaligned_rw::{UnalignedRWMode, UnalignedWriter};
                 let prec_bits = (1.0 / prec.min(1.0)).log2().ceil() as u8;
-                let mul = ((1 << prec_bits) - 1) as FloatType;
+                //Ensure precision is never 0(messes up the reader/writer), and never above what a reader accepts;
+                let prec_bits = prec_bits.clamp(1, 63);
+                let mul = ((1_u64 << prec_bits) - 1) as FloatType;
                 target.write_all(&(data.len() as u64).to_le_bytes())?;
                 target.write_all(&[prec_bits])?;
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
-- 
2.43.0


From 924a65e703307cbb46db1f16f2ed6b74b7549a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 10/24] fix: the length and precision of a custom color segment
 were not checked

---
 src/custom_data.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index afb1b30..f831f9a 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -251,7 +251,13 @@ impl CustomDataSegment {
             SectionType::CustomColorRGBASegment => {
                 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader};
                 let len = src.read_u64()?;
+                if len > MAX_SEG_SIZE as u64 {
+                    return Err(TMFImportError::SegmentTooLong);
+                }
                 let prec_bits = src.read_u8()?;
+                if prec_bits >= u64::BITS as u8 {
+                    return Err(TMFImportError::InvalidPrecision(prec_bits));
+                }
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut reader = UnalignedReader::new(src);
                 let mut res = vec![(0.0, 0.0, 0.0, 0.0); len as usize];
-- 
2.43.0


From df9ea49b83f82600b0a25480852c4df6d2fde148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 11/24] fix: the precision of an index segment was not checked

---
 src/tmf_importer.rs | 3 +++
 src/vertices.rs     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index 040f45f..e5146c6 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -261,6 +261,9 @@ pub(crate) fn read_default_triangles<R: std::io::Read>(
     ctx: &crate::tmf_importer::TMFImportContext,
 ) -> Result<(), TMFImportError> {
     let precision_bits = src.read_u8()?;
+    if precision_bits >= u64::BITS as u8 {
+        return Err(TMFImportError::InvalidPrecision(precision_bits));
+    }
     let length = src.read_u64()?;
     let min = ctx.read_traingle_min(&mut src)?;
     if length > MAX_SEG_SIZE as u64 {
diff --git a/src/vertices.rs b/src/vertices.rs
index 1615bcd..87aa5f2 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -199,6 +199,9 @@ pub(crate) fn read_triangles<R: Read>(
     ctx: &crate::tmf_importer::TMFImportContext,
 ) -> Result<Box<[IndexType]>, TMFImportError> {
     let precision = reader.read_u8()?;
+    if precision >= u64::BITS as u8 {
+        return Err(TMFImportError::InvalidPrecision(precision));
+    }
     let length = reader.read_u64()?;
     let min = ctx.read_traingle_min(reader)?;
     if length > MAX_SEG_SIZE as u64 {
-- 
2.43.0


From c30b06c4be6b601a7f48e1b97ab7dd96ce3fe263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 12/24] fix: a large minimal index in an index segment made the
 reader panic

---
 src/tmf_importer.rs | 6 +++---
 src/vertices.rs     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index e5146c6..df8241a 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -279,12 +279,12 @@ pub(crate) fn read_default_triangles<R: std::io::Read>(
     } else {
         for index in 0..(length as usize) / 2 {
             let (i1, i2) = reader.read2_unaligned(precision)?;
-            buf[index * 2].write((i1 + min) as IndexType);
-            buf[index * 2 + 1].write((i2 + min) as IndexType);
+            buf[index * 2].write(i1.wrapping_add(min) as IndexType);
+            buf[index * 2 + 1].write(i2.wrapping_add(min) as IndexType);
         }
         if length % 2 != 0 {
             let i = reader.read_unaligned(precision)?;
-            buf[(length - 1) as usize].write((i + min) as IndexType);
+            buf[(length - 1) as usize].write(i.wrapping_add(min) as IndexType);
         }
     }
     unsafe { data.set_len(length as usize) }
diff --git a/src/vertices.rs b/src/vertices.rs
index 87aa5f2..5e5254e 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -212,11 +212,11 @@ pub(crate) fn read_triangles<R: Read>(
     let mut reader = UnalignedReader::new(reader);
     for _ in 0..(length / 2) {
         let (i1, i2) = reader.read2_unaligned(precision)?;
-        res.push((i1 + min) as IndexType);
-        res.push((i2 + min) as IndexType);
+        res.push(i1.wrapping_add(min) as IndexType);
+        res.push(i2.wrapping_add(min) as IndexType);
     }
     for _i in 0..length % 2 {
-        res.push((reader.read_unaligned(precision)? + min) as IndexType);
+        res.push(reader.read_unaligned(precision)?.wrapping_add(min) as IndexType);
     }
     Ok(res.into())
 }
-- 
2.43.0


From fc869311ae8ce1280bade8c36068f52a52eb121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 13/24] fix: the minimal index was ignored when index precision
 is 0

---
 src/tmf_importer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index df8241a..deb2bb3 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -275,7 +275,7 @@ pub(crate) fn read_default_triangles<R: std::io::Read>(
     let mut reader = UnalignedReader::new(src);
     if precision_bits == 0 {
         use std::mem::MaybeUninit;
-        buf.fill(MaybeUninit::new(0));
+        buf.fill(MaybeUninit::new(min as IndexType));
     } else {
         for index in 0..(length as usize) / 2 {
             let (i1, i2) = reader.read2_unaligned(precision)?;
-- 
2.43.0


From 0cbac5cf5b204a5e4786f957e320550b036cfd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 14/24] fix: reading two 32 bit values at once always gave
 zeros

---
 src/unaligned_rw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unaligned_rw.rs b/src/unaligned_rw.rs
index 05ff6a4..16a398e 100644
--- a/src/unaligned_rw.rs
+++ b/src/unaligned_rw.rs
@@ -55,7 +55,7 @@ impl<R: Read> UnalignedReader<R> {
         if mode.0 == 0 {
             return Ok((0, 0));
         }
-        if mode.0 > (u64::BITS / 2) as u8 {
+        if mode.0 >= (u64::BITS / 2) as u8 {
             Ok((self.read_unaligned(mode)?, self.read_unaligned(mode)?))
         } else {
             let read_size = UnalignedRWMode(mode.0 * 2);
-- 
2.43.0


From d2533b7ff5ce551cb359dc02c1df4defa6972b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:21 +0000
Subject: [PATCH 15/24] fix: reading a pair of values split it by the width of
 the wrong one

---
 src/unaligned_rw.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/unaligned_rw.rs b/src/unaligned_rw.rs
index 16a398e..d62c274 100644
--- a/src/unaligned_rw.rs
+++ b/src/unaligned_rw.rs
@@ -70,13 +70,13 @@ impl<R: Read> UnalignedReader<R> {
         mode1: UnalignedRWMode,
         mode2: UnalignedRWMode,
     ) -> Result<(u64, u64)> {
-        if mode1.0 + mode2.0 > u64::BITS as u8 {
+        if mode2.0 == 0 || mode1.0 + mode2.0 >= u64::BITS as u8 {
             Ok((self.read_unaligned(mode1)?, self.read_unaligned(mode2)?))
         } else {
             let read_size = UnalignedRWMode(mode1.0 + mode2.0);
             let data = self.read_unaligned(read_size)?;
-            let r1 = data >> mode1.0;
-            let r2 = data << (u64::BITS as u8 - mode1.0) >> (u64::BITS as u8 - mode1.0);
+            let r1 = data >> mode2.0;
+            let r2 = data << (u64::BITS as u8 - mode2.0) >> (u64::BITS as u8 - mode2.0);
             Ok((r1, r2))
         }
     }
-- 
2.43.0


From d922cc08d2c1a8407ed0671cb49e6748aa6fbf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 16/24] fix: lengths and counts too large for their field were
 stored truncated

---
 src/tmf.rs          |  2 +-
 src/tmf_exporter.rs | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/tmf.rs b/src/tmf.rs
index 3029058..90004c9 100644
--- a/src/tmf.rs
+++ b/src/tmf.rs
@@ -132,7 +132,7 @@ impl EncodedSegment {
     pub(crate) fn write<W: std::io::Write>(&self, w: &mut W) -> std::io::Result<()> {
         let st: u8 = self.seg_type as u16 as u8;
         w.write_all(&[st])?;
-        w.write_all(&(self.data.len() as u32).to_le_bytes())?;
+        w.write_all(&crate::tmf_exporter::stored_length::<u32>(self.data.len())?.to_le_bytes())?;
         w.write_all(&[self.compresion_type as u8])?;
         w.write_all(&self.data)
     }
diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 0f59737..f28c7f0 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -63,9 +63,18 @@ fn calc_shortest_edge(
     shortest_edge
 }
 
+/// Converts a length to the type it is stored as, failing if it does not fit.
+pub(crate) fn stored_length<T: TryFrom<usize>>(len: usize) -> std::io::Result<T> {
+    T::try_from(len).map_err(|_| {
+        std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            "A length or count is too large for its field",
+        )
+    })
+}
 pub(crate) fn write_mesh_name<W: std::io::Write>(w: &mut W, s: &str) -> std::io::Result<()> {
     let bytes = s.as_bytes();
-    w.write_all(&(bytes.len() as u16).to_le_bytes())?;
+    w.write_all(&stored_length::<u16>(bytes.len())?.to_le_bytes())?;
     w.write_all(bytes)
 }
 fn merge_segments(segments: &[DecodedSegment]) -> Box<[DecodedSegment]> {
@@ -105,7 +114,7 @@ async fn write_mesh<W: std::io::Write>(
         encoded.push(seg.encode(p_info, &ei));
     }
     let encoded = futures::future::join_all(encoded).await;
-    target.write_all(&(encoded.len() as u16).to_le_bytes())?;
+    target.write_all(&stored_length::<u16>(encoded.len())?.to_le_bytes())?;
     for seg in encoded {
         seg?.write(target)?;
     }
@@ -117,7 +126,7 @@ pub(crate) async fn write_tmf<W: std::io::Write, S: std::borrow::Borrow<str>>(
     p_info: &TMFPrecisionInfo,
 ) -> Result<(), TMFExportError> {
     let mesh_count = meshes_names.len();
-    write_tmf_header(target, mesh_count as u32)?;
+    write_tmf_header(target, stored_length(mesh_count)?)?;
     for (mesh, name) in meshes_names {
         write_mesh(mesh, name.borrow(), target, p_info).await?;
     }
-- 
2.43.0


From 1666073860eaed22bdc859268fa52fcb3c4c3dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 17/24] fix: a sequence compressed segment was refused with the
 wrong code

---
 src/tmf_importer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index deb2bb3..ed17dfa 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -308,7 +308,7 @@ pub(crate) async fn decode_triangle_seg(
             CompressionType::None => read_default_triangles(data, &mut indices, ctx)?,
             CompressionType::Sequence => {
                 return Err(TMFImportError::UnsuportedCompressionType(
-                    CompressionType::Ommited as u8,
+                    CompressionType::Sequence as u8,
                 ))
             } //read_triangle_sequence(data, &mut indices)?,
             CompressionType::Ommited => {
-- 
2.43.0


From 56a3428c78abf19f40b8120bb34c05eda0142718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 18/24] fix: the compression type of most segments was ignored

---
 src/tmf.rs          |  1 +
 src/tmf_importer.rs | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/tmf.rs b/src/tmf.rs
index 90004c9..588ff09 100644
--- a/src/tmf.rs
+++ b/src/tmf.rs
@@ -415,6 +415,7 @@ impl DecodedSegment {
             SectionType::UvSegment => decode_uv_seg(seg).await,
             SectionType::TangentSegment => {
                 async {
+                    crate::tmf_importer::require_plain(&seg)?;
                     let tans = crate::tangents::read_tangents(&mut &seg.data[..])?;
                     Ok(DecodedSegment::AppendTangent(tans))
                 }
diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index ed17dfa..afc44da 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -202,10 +202,18 @@ pub(crate) fn import_sync<R: std::io::Read>(
 ) -> Result<Vec<(TMFMesh, String)>, TMFImportError> {
     runtime_agnostic_block_on!(TMFImportContext::import(src))
 }
+/// Refuses segments which are compressed in a way their kind does not support.
+pub(crate) fn require_plain(seg: &EncodedSegment) -> Result<(), TMFImportError> {
+    match seg.compresion_type() {
+        CompressionType::None => Ok(()),
+        other => Err(TMFImportError::UnsuportedCompressionType(other as u8)),
+    }
+}
 pub(crate) async fn decode_vertex_seg(
     seg: EncodedSegment,
 ) -> Result<DecodedSegment, TMFImportError> {
     if SectionType::VertexSegment == seg.seg_type() {
+        require_plain(&seg)?;
         let mut data: &[u8] = seg.data();
         Ok(DecodedSegment::AppendVertex(
             crate::vertices::read_tmf_vertices(&mut data)?,
@@ -216,6 +224,7 @@ pub(crate) async fn decode_vertex_seg(
 }
 pub(crate) async fn decode_uv_seg(seg: EncodedSegment) -> Result<DecodedSegment, TMFImportError> {
     if SectionType::UvSegment == seg.seg_type() {
+        require_plain(&seg)?;
         let mut data: &[u8] = seg.data();
         Ok(DecodedSegment::AppendUV(crate::uv::read_uvs(&mut data)?))
     } else {
@@ -226,6 +235,7 @@ pub(crate) async fn decode_normal_seg(
     seg: EncodedSegment,
 ) -> Result<DecodedSegment, TMFImportError> {
     if SectionType::NormalSegment == seg.seg_type() {
+        require_plain(&seg)?;
         let mut data: &[u8] = seg.data();
         Ok(DecodedSegment::AppendNormal(
             crate::normals::read_normal_array(&mut data)?,
@@ -245,6 +255,7 @@ pub(crate) async fn decode_custom_seg(
             | SectionType::CustomIntigerSegment
             | SectionType::CustomColorRGBASegment
     ) {
+        require_plain(&seg)?;
         let mut data: &[u8] = seg.data();
         Ok(DecodedSegment::AppendCustom(CustomDataSegment::read(
             &mut data,
-- 
2.43.0


From 43a7b4933b4d5e86503a2041782aad1f52eb4eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:06 +0000
Subject: [PATCH 19/24] fix: writing a mesh with a face outside of its vertex
 array panicked

---
 src/tmf_exporter.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index f28c7f0..5913844 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -35,21 +35,18 @@ fn calc_shortest_edge(
                 Some(vertices) => vertices,
                 None => return 0.1,
             };
+            // Indices outside of the vertex array belong to no edge
+            let vertex = |i: usize| vertices.get(vertex_triangles[i] as usize).copied();
             let mut shortest_edge = FloatType::INFINITY;
             for i in 0..(vertex_triangles.len() / 3) {
-                let d1 = distance(
-                    vertices[vertex_triangles[i * 3] as usize],
-                    vertices[vertex_triangles[i * 3 + 1] as usize],
-                );
-                let d2 = distance(
-                    vertices[vertex_triangles[i * 3 + 1] as usize],
-                    vertices[vertex_triangles[i * 3 + 2] as usize],
-                );
-                let d3 = distance(
-                    vertices[vertex_triangles[i * 3 + 2] as usize],
-                    vertices[vertex_triangles[i * 3] as usize],
-                );
-                shortest_edge = shortest_edge.min(d1.min(d2.min(d3)));
+                if let (Some(v1), Some(v2), Some(v3)) =
+                    (vertex(i * 3), vertex(i * 3 + 1), vertex(i * 3 + 2))
+                {
+                    let d1 = distance(v1, v2);
+                    let d2 = distance(v2, v3);
+                    let d3 = distance(v3, v1);
+                    shortest_edge = shortest_edge.min(d1.min(d2.min(d3)));
+                }
             }
             shortest_edge
         }
-- 
2.43.0


From d06c91be7b9f8e66e957fe709dbfbafc68bf50a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 20/24] fix: writing a mesh without a single finite edge
 panicked

---
 src/tmf_exporter.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 5913844..a2088a5 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -53,11 +53,11 @@ fn calc_shortest_edge(
         // TODO: Calculate distance between closest points for point cloud
         None => 0.1,
     };
-    assert!(
-        shortest_edge.is_finite(),
-        "Shortest edge should be finite but is '{shortest_edge}'!"
-    );
-    shortest_edge
+    if shortest_edge.is_finite() {
+        shortest_edge
+    } else {
+        0.1
+    }
 }
 
 /// Converts a length to the type it is stored as, failing if it does not fit.
-- 
2.43.0


From 33782c6b759f9bfaba68cf6cace27caa0999ae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:16 +0000
Subject: [PATCH 21/24] fix: writing a mesh of infinite size panicked

---
 src/tmf_exporter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index a2088a5..7d95e96 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -287,14 +287,14 @@ pub(crate) fn opt_tris(triangles: &[IndexType]) -> SmallVec<[&[IndexType]; 4]> {
 fn range_to_vertex_bit_count(span: std::ops::Range<Vector3>, shortest_edge: FloatType) -> u8 {
     let dx = span.end.0 - span.start.0;
     let dy = span.end.1 - span.start.1;
-    let _dz = span.end.2 - span.start.2;
+    let dz = span.end.2 - span.start.2;
     let inc_x = shortest_edge / dx;
     let inc_y = shortest_edge / dy;
-    let inc_z = shortest_edge / dy;
+    let inc_z = shortest_edge / dz;
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
     let prec_z = (1.0 / inc_z).log2().ceil() as u8;
-    prec_x + prec_y + prec_z
+    prec_x.saturating_add(prec_y).saturating_add(prec_z)
 }
 fn expand_vertex_span(span: std::ops::Range<Vector3>, point: Vector3) -> std::ops::Range<Vector3> {
     let min = span.start;
@@ -328,7 +328,7 @@ fn find_best_vertex_spilt(vertices: &[Vector3], shortest_edge: FloatType) -> Opt
             per_vertex_bit_count = range_to_vertex_bit_count(min_span.clone(), shortest_edge);
 
         } else {
-            let gain_per_vert = total_per_vertex_bit_count - per_vertex_bit_count;
+            let gain_per_vert = total_per_vertex_bit_count.saturating_sub(per_vertex_bit_count);
             let gain = index * (gain_per_vert as usize);
             let loss = TMF_SEG_SIZE
                 + std::mem::size_of::<u64>()
-- 
2.43.0


From 532aaa16d6f8af34e3e51d84f22b9ea8102da378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 22/24] fix: exported faces after a mesh without faces used
 wrong indices

---
 src/obj.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index 665f30c..259beea 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -141,6 +141,14 @@ fn save_obj<W: Write>(
             }
         }
     }
+    let normal_count = match mesh.get_normals() {
+        Some(normals) => normals.len(),
+        None => 0,
+    };
+    let uv_count = match mesh.get_uvs() {
+        Some(uvs) => uvs.len(),
+        None => 0,
+    };
     // Check triangle arrays
     // Get the length of the vertex triangle array to use for later array size comparison
     let vert_triangle_len = match mesh.get_vertex_triangles() {
@@ -156,7 +164,11 @@ fn save_obj<W: Write>(
                     "If vertex triangles data is not present, uv triangle data must not be present either!",
                 ));
             }
-            return Ok((0, 0, 0));
+            return Ok((
+                vertex_count as IndexType,
+                uv_count as IndexType,
+                normal_count as IndexType,
+            ));
         }
     };
     // Ensure normal triangle array, if present, has the right length.
@@ -203,14 +215,6 @@ fn save_obj<W: Write>(
             write!(w, " ")?
         }
     }
-    let normal_count = match mesh.get_normals() {
-        Some(normals) => normals.len(),
-        None => 0,
-    };
-    let uv_count = match mesh.get_uvs() {
-        Some(uvs) => uvs.len(),
-        None => 0,
-    };
     // If no vertices present, then no vertex triangles SHOULD be present, so if they are present, it is an error.
     Ok((
         vertex_count as IndexType,
-- 
2.43.0


From 3fb1a9bfa47b6e6120e4e6ebd466220c20db1d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 23/24] fix: triangulating a face outside of the vertex array
 panicked

---
 src/model_importer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/model_importer.rs b/src/model_importer.rs
index 7a3e8b3..db4b353 100644
--- a/src/model_importer.rs
+++ b/src/model_importer.rs
@@ -137,6 +137,12 @@ impl ModelImporter {
                 }
                 #[cfg(feature = "triangulation")]
                 {
+                    if vertex_indices
+                        .iter()
+                        .any(|index| *index as usize >= self.vertices.len())
+                    {
+                        return Err("Face refers to a vertex which does not exist".to_owned());
+                    }
                     let vertex_indices = SmallVec::from_slice(vertex_indices);
                     let normal_indices = SmallVec::from_slice(normal_indices);
                     let uv_indices = SmallVec::from_slice(uv_indices);
-- 
2.43.0


From 5b68ef1e175428ad581a8d99354cbc89b679bed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 24/24] fix: custom data of the same name came back in reverse
 order

---
 src/tmf_exporter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 7d95e96..684a99a 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -85,6 +85,8 @@ fn merge_segments(segments: &[DecodedSegment]) -> Box<[DecodedSegment]> {
             new_segments.push(segment);
         }
     }
+    // Segments are taken from the end, but are stored in the order of the mesh
+    new_segments.reverse();
     new_segments.into()
 }
 async fn write_mesh<W: std::io::Write>(
-- 
2.43.0

