From b1bd9a568061f0d0f2888e88d1c8ffda511d537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 1/9] fix: reset the DC prediction at restart markers when
 optimizing Huffman tables

---
 src/encoder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index eded305..4e8d527 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1073,7 +1073,14 @@ impl<W: JfifWrite> Encoder<W> {
 
                     debug_assert!(!blocks[i].is_empty());
 
-                    for block in &blocks[i] {
+                    let restart_interval = usize::from(self.restart_interval.unwrap_or(0));
+
+                    for (n, block) in blocks[i].iter().enumerate() {
+                        // The DC prediction starts over after each restart marker
+                        if restart_interval > 0 && n % restart_interval == 0 {
+                            prev_dc = 0;
+                        }
+
                         let value = block[0];
                         let diff = value - prev_dc;
                         let num_bits = get_num_bits(diff);
-- 
2.43.0


From 9c807dc536600ec6279bc8eae7ed975327a531fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 2/9] fix: never write an empty first AC scan when more than 33
 progressive scans are requested

---
 src/encoder.rs | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 4e8d527..03f1ad5 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -892,16 +892,8 @@ impl<W: JfifWrite> Encoder<W> {
         // Phase 2: AC scans
         let scans = scans as usize - 1;
 
-        let values_per_scan = 64 / scans;
-
         for scan in 0..scans {
-            let start = (scan * values_per_scan).max(1);
-            let end = if scan == scans - 1 {
-                // ensure last scan is always transfers the remaining coefficients
-                64
-            } else {
-                (scan + 1) * values_per_scan
-            };
+            let (start, end) = get_ac_band(scan, scans);
 
             for (i, component) in self.components.iter().enumerate() {
                 let restart_interval = self.restart_interval.unwrap_or(0);
@@ -1097,16 +1089,8 @@ impl<W: JfifWrite> Encoder<W> {
                     if let Some(scans) = self.progressive_scans {
                         let scans = scans as usize - 1;
 
-                        let values_per_scan = 64 / scans;
-
                         for scan in 0..scans {
-                            let start = (scan * values_per_scan).max(1);
-                            let end = if scan == scans - 1 {
-                                // Due to rounding we might need to transfer more than values_per_scan values in the last scan
-                                64
-                            } else {
-                                (scan + 1) * values_per_scan
-                            };
+                            let (start, end) = get_ac_band(scan, scans);
 
                             debug_assert!(!blocks[i].is_empty());
 
@@ -1220,6 +1204,21 @@ fn ceil_div(value: usize, div: usize) -> usize {
     value / div + usize::from(value % div != 0)
 }
 
+/// Get the range of coefficients transferred by one of the AC scans
+///
+/// The 63 AC coefficients are distributed evenly, the last scan takes the remaining ones.
+fn get_ac_band(scan: usize, scans: usize) -> (usize, usize) {
+    let values_per_scan = 63 / scans;
+    let start = 1 + scan * values_per_scan;
+    let end = if scan == scans - 1 {
+        64
+    } else {
+        start + values_per_scan
+    };
+
+    (start, end)
+}
+
 fn get_num_bits(mut value: i16) -> u8 {
     if value < 0 {
         value = -value;
-- 
2.43.0


From b9c2a79ab637f1a216d34c159fd169bec5647dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 3/9] fix: clamp custom quantization values to the 8 bit range
 that is written to the file

---
 src/quantization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quantization.rs b/src/quantization.rs
index 93055e6..37007cd 100644
--- a/src/quantization.rs
+++ b/src/quantization.rs
@@ -250,7 +250,7 @@ impl QuantizationTable {
     fn get_user_table(table: &[u16; 64]) -> [NonZeroU16; 64] {
         let mut q_table = [NonZeroU16::new(1).unwrap(); 64];
         for (i, &v) in table.iter().enumerate() {
-            q_table[i] = match NonZeroU16::new(v.clamp(1, 2 << 10) << 3) {
+            q_table[i] = match NonZeroU16::new(v.clamp(1, 255) << 3) {
                 Some(v) => v,
                 None => panic!("Invalid quantization table value: {}", v),
             };
-- 
2.43.0


From 8ef94694b281d0ba8bb8492ced3321e701bc7f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 4/9] fix: accept ICC profiles that need exactly 255 chunks

---
 src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 03f1ad5..5dc3d82 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -381,7 +381,7 @@ impl<W: JfifWrite> Encoder<W> {
         let num_chunks = ceil_div(data.len(), MAX_CHUNK_LENGTH);
 
         // Sequence number is stored as a byte and starts with 1
-        if num_chunks >= 255 {
+        if num_chunks > 255 {
             return Err(EncodingError::IccTooLarge(data.len()));
         }
 
-- 
2.43.0


From 508a4623740c23a62fb00a7da28fb0b21a5c5eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 5/9] fix: add the rounding bias to every 16 bit lane in the
 AVX2 forward DCT

---
 src/avx2/fdct.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/avx2/fdct.rs b/src/avx2/fdct.rs
index b7caa38..131ffd7 100644
--- a/src/avx2/fdct.rs
+++ b/src/avx2/fdct.rs
@@ -188,7 +188,15 @@ unsafe fn fdct_avx2_internal(data: &mut [i16; 64]) {
     #[allow(non_snake_case)]
     #[inline(always)]
     unsafe fn PW_DESCALE_P2X() -> __m256i {
-        _mm256_set_epi32(
+        _mm256_set_epi16(
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
             1 << (PASS1_BITS - 1),
             1 << (PASS1_BITS - 1),
             1 << (PASS1_BITS - 1),
-- 
2.43.0


From fbae4646c80ea6d50d6ad6234442ac4a6d4ee463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 6/9] fix: flush the writer after the last byte and report
 failures

---
 src/encoder.rs |  1 +
 src/writer.rs  | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/encoder.rs b/src/encoder.rs
index 5dc3d82..b832e1b 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -528,6 +528,7 @@ impl<W: JfifWrite> Encoder<W> {
         }
 
         self.writer.write_marker(Marker::EOI)?;
+        self.writer.flush()?;
 
         Ok(())
     }
diff --git a/src/writer.rs b/src/writer.rs
index e818b67..238da6b 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -38,6 +38,14 @@ pub trait JfifWrite {
     ///
     /// Return an error if the data can't be written
     fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError>;
+
+    /// Makes sure that all written data has reached its destination. This is called once after the image is complete.
+    /// # Errors
+    ///
+    /// Return an error if buffered data can't be written
+    fn flush_output(&mut self) -> Result<(), EncodingError> {
+        Ok(())
+    }
 }
 
 #[cfg(not(feature = "std"))]
@@ -45,6 +53,10 @@ impl<W: JfifWrite + ?Sized> JfifWrite for &mut W {
     fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError> {
         (**self).write_all(buf)
     }
+
+    fn flush_output(&mut self) -> Result<(), EncodingError> {
+        (**self).flush_output()
+    }
 }
 
 #[cfg(not(feature = "std"))]
@@ -62,6 +74,12 @@ impl<W: std::io::Write + ?Sized> JfifWrite for W {
         self.write_all(buf)?;
         Ok(())
     }
+
+    #[inline(always)]
+    fn flush_output(&mut self) -> Result<(), EncodingError> {
+        self.flush()?;
+        Ok(())
+    }
 }
 
 pub(crate) struct JfifWriter<W: JfifWrite> {
@@ -84,6 +102,10 @@ impl<W: JfifWrite> JfifWriter<W> {
         self.w.write_all(buf)
     }
 
+    pub fn flush(&mut self) -> Result<(), EncodingError> {
+        self.w.flush_output()
+    }
+
     #[inline(always)]
     pub fn write_u8(&mut self, value: u8) -> Result<(), EncodingError> {
         self.w.write_all(&[value])
-- 
2.43.0


From 3ddc7e1bfcf3a2057e2ee7ba420e0fd9644a2452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 7/9] fix: handle Huffman trees deeper than 32 levels when
 optimizing tables

---
 src/huffman.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/huffman.rs b/src/huffman.rs
index a32debd..c7429c3 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -156,7 +156,10 @@ impl HuffmanTable {
         // Find the number of codes of each size
         // Figure K.2
 
-        let mut bits = [0u8; 33];
+        // With 257 symbols no code can be longer than 256 bits
+        const MAX_CODE_SIZE: usize = 256;
+
+        let mut bits = [0u8; MAX_CODE_SIZE + 1];
 
         for &size in codesize.iter() {
             if size > 0 {
@@ -167,7 +170,7 @@ impl HuffmanTable {
         // Limiting code lengths to 16 bits
         // Figure K.3
 
-        let mut i = 32;
+        let mut i = MAX_CODE_SIZE;
 
         while i > 16 {
             while bits[i] > 0 {
@@ -197,7 +200,7 @@ impl HuffmanTable {
 
         let mut k = 0;
 
-        for i in 1..=32 {
+        for i in 1..=MAX_CODE_SIZE {
             for j in 0..=255 {
                 if codesize[j] == i {
                     huffval[k] = j as u8;
-- 
2.43.0


From f9164a394b9c1956f933b655cc9ba8d0eec67d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:00 +0000
Subject: [PATCH 8/9] fix: do not overflow when computing the required length
 on 32 bit platforms

---
 src/encoder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index b832e1b..97454d6 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -410,7 +410,10 @@ impl<W: JfifWrite> Encoder<W> {
         height: u16,
         color_type: ColorType,
     ) -> Result<(), EncodingError> {
-        let required_data_len = width as usize * height as usize * color_type.get_bytes_per_pixel();
+        // The product may not fit into 32 bit
+        let required_data_len = (width as usize)
+            .saturating_mul(height as usize)
+            .saturating_mul(color_type.get_bytes_per_pixel());
 
         if data.len() < required_data_len {
             return Err(EncodingError::BadImageData {
-- 
2.43.0


From 030281443321e5bdea37081ee7a1289c758259d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:40 +0000
Subject: [PATCH 9/9] fix: count Huffman symbols with 64 bits

---
 src/encoder.rs | 4 ++--
 src/huffman.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 97454d6..2a1d7c0 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1053,9 +1053,9 @@ impl<W: JfifWrite> Encoder<W> {
         let max_tables = self.components.len().min(2) as u8;
 
         for table in 0..max_tables {
-            let mut dc_freq = [0u32; 257];
+            let mut dc_freq = [0u64; 257];
             dc_freq[256] = 1;
-            let mut ac_freq = [0u32; 257];
+            let mut ac_freq = [0u64; 257];
             ac_freq[256] = 1;
 
             let mut had_ac = false;
diff --git a/src/huffman.rs b/src/huffman.rs
index c7429c3..4847008 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -96,7 +96,7 @@ impl HuffmanTable {
 
     /// Generates an optimized huffman table as described in Section K.2
     #[allow(clippy::needless_range_loop)]
-    pub fn new_optimized(mut freq: [u32; 257]) -> HuffmanTable {
+    pub fn new_optimized(mut freq: [u64; 257]) -> HuffmanTable {
         let mut others = [-1i32; 257];
         let mut codesize = [0usize; 257];
 
@@ -104,7 +104,7 @@ impl HuffmanTable {
         // Figure K.1
         loop {
             let mut v1 = None;
-            let mut v1_min = u32::MAX;
+            let mut v1_min = u64::MAX;
 
             // Find the largest value with the least non zero frequency
             for (i, &f) in freq.iter().enumerate() {
@@ -120,7 +120,7 @@ impl HuffmanTable {
             };
 
             let mut v2 = None;
-            let mut v2_min = u32::MAX;
+            let mut v2_min = u64::MAX;
 
             // Find the next largest value with the least non zero frequency
             for (i, &f) in freq.iter().enumerate() {
-- 
2.43.0

