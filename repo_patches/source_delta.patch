From 92ce62cc01ab12c8f40593089689febe99cdadc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 01/27] fix: choose the storage width from exact integer parts

Fractions below 2^-64 were taken for integers and magnitudes of 2^63 or
more wrapped, so such samples were cast to a width that cannot hold them.
---
 atsc/src/optimizer/utils.rs | 53 +++----------------------------------
 1 file changed, 4 insertions(+), 49 deletions(-)

diff --git a/atsc/src/optimizer/utils.rs b/atsc/src/optimizer/utils.rs
index 556a253..7f1b1f0 100644
--- a/atsc/src/optimizer/utils.rs
+++ b/atsc/src/optimizer/utils.rs
@@ -50,7 +50,7 @@ impl DataStats {
         for (i, value) in data.iter().enumerate() {
             let t_value = *value;
             mean += value;
-            if split_n(t_value).1 != 0.0 {
+            if t_value.fract() != 0.0 {
                 fractional = true;
             }
             if t_value > max {
@@ -66,8 +66,9 @@ impl DataStats {
         // Check max size of values
         // TODO: for very large numbers (i32 and i64), it might be ideal to detect the dc component
         // of the signal. And then remove it later
-        let max_int = split_n(max).0; // This is the DC component
-        let min_int = split_n(min).0;
+        // Float to integer casts saturate, so values beyond i64 end up in the widest bitdepth
+        let max_int = max as i64; // This is the DC component
+        let min_int = min as i64;
 
         // Finding the bitdepth without the DC component
         if !fractional {
@@ -112,52 +113,6 @@ impl DataStats {
         }
     }
 }
-fn split_n(x: f64) -> (i64, f64) {
-    const FRACT_SCALE: f64 = 1.0 / (65536.0 * 65536.0 * 65536.0 * 65536.0); // 1_f64.exp(-64)
-    const STORED_MANTISSA_DIGITS: u32 = f64::MANTISSA_DIGITS - 1;
-    const STORED_MANTISSA_MASK: u64 = (1 << STORED_MANTISSA_DIGITS) - 1;
-    const MANTISSA_MSB: u64 = 1 << STORED_MANTISSA_DIGITS;
-
-    const EXPONENT_BITS: u32 = 64 - 1 - STORED_MANTISSA_DIGITS;
-    const EXPONENT_MASK: u32 = (1 << EXPONENT_BITS) - 1;
-    const EXPONENT_BIAS: i32 = (1 << (EXPONENT_BITS - 1)) - 1;
-
-    let bits = x.to_bits();
-    let is_negative = (bits as i64) < 0;
-    let exponent = ((bits >> STORED_MANTISSA_DIGITS) as u32 & EXPONENT_MASK) as i32;
-
-    let mantissa = (bits & STORED_MANTISSA_MASK) | MANTISSA_MSB;
-    let mantissa = if is_negative {
-        -(mantissa as i64)
-    } else {
-        mantissa as i64
-    };
-
-    let shl = exponent + (64 - f64::MANTISSA_DIGITS as i32 - EXPONENT_BIAS + 1);
-    if shl <= 0 {
-        let shr = -shl;
-        if shr < 64 {
-            // x >> 0..64
-            let fraction = ((mantissa as u64) >> shr) as f64 * FRACT_SCALE;
-            (0, fraction)
-        } else {
-            // x >> 64..
-            (0, 0.0)
-        }
-    } else if shl < 64 {
-        // x << 1..64
-        let int = mantissa >> (64 - shl);
-        let fraction = ((mantissa as u64) << shl) as f64 * FRACT_SCALE;
-        (int, fraction)
-    } else if shl < 128 {
-        // x << 64..128
-        let int = mantissa << (shl - 64);
-        (int, 0.0)
-    } else {
-        // x << 128..
-        (0, 0.0)
-    }
-}
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 6d6a133f2fa0dc34df3895dfa5fddc740435e0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 02/27] fix: a sample reproduced exactly counts as no error in
 MAPE

0/0 made the error of any series with an exactly reproduced zero NaN,
which stopped the error control loops early.
---
 atsc/src/utils/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atsc/src/utils/error.rs b/atsc/src/utils/error.rs
index d472b5d..f2af873 100644
--- a/atsc/src/utils/error.rs
+++ b/atsc/src/utils/error.rs
@@ -109,9 +109,10 @@ pub fn error_mape(original: &[f64], generated: &[f64]) -> f64 {
     let abs_error: f64 = original
         .iter()
         .zip(generated.iter())
+        // An exact sample has no error, even if it is 0 (the division would be NaN)
+        .filter(|(original, generated)| original != generated)
         .map(|(original, generated)| ((generated - original) / original).abs())
         .sum();
-    // TODO: NaN needs to be handled
     abs_error / original.len() as f64
 }
 
-- 
2.43.0


From 79b5736fcabcf695009662da41c77191a5f38946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 03/27] fix: return the samples as stored when a frame stores
 all of them

Rounding them to 5 decimals lost samples smaller than that, although
storing everything is what guarantees an error of 0.
---
 atsc/src/compressor/polynomial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atsc/src/compressor/polynomial.rs b/atsc/src/compressor/polynomial.rs
index 531a82a..da66497 100644
--- a/atsc/src/compressor/polynomial.rs
+++ b/atsc/src/compressor/polynomial.rs
@@ -397,6 +397,10 @@ impl Polynomial {
             debug!("Same max and min, faster decompression!");
             return vec![self.max; frame_size];
         }
+        if self.data_points.len() == frame_size {
+            debug!("Every sample is stored, nothing to interpolate!");
+            return self.data_points.clone();
+        }
         match self.id {
             PolynomialType::Idw => self.idw_to_data(frame_size),
             PolynomialType::Polynomial => self.polynomial_to_data(frame_size),
-- 
2.43.0


From da8fd2dd129062d788f722405a0db8ec91cd7e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 04/27] fix: polynomial error control loop stops at the error
 it was given

The comparison was made on values rounded to 3 and 4 decimals, so the loop
could stop above the maximum error, and it ended on an error that is not a
number.
---
 atsc/src/compressor/polynomial.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/atsc/src/compressor/polynomial.rs b/atsc/src/compressor/polynomial.rs
index da66497..250ec5a 100644
--- a/atsc/src/compressor/polynomial.rs
+++ b/atsc/src/compressor/polynomial.rs
@@ -15,7 +15,7 @@ limitations under the License.
 */
 
 use crate::optimizer::utils::{Bitdepth, DataStats};
-use crate::utils::{error::calculate_error, round_and_limit_f64, round_f64, DECIMAL_PRECISION};
+use crate::utils::{error::calculate_error, round_and_limit_f64, DECIMAL_PRECISION};
 
 use super::{BinConfig, CompressorResult};
 use bincode::{Decode, Encode};
@@ -223,18 +223,20 @@ impl Polynomial {
             data_len / 100
         };
         // Variables for the error control loop
-        let mut current_err = max_err + 1.0;
+        let mut current_err = f64::INFINITY;
         let mut jump: usize = 0;
         let mut iterations = 0;
-        // Locking max target error precision to 0.1%
-        let target_error = round_f64(max_err, 3);
-        while target_error < round_f64(current_err, 4) {
+        #[allow(
+            clippy::neg_cmp_op_on_partial_ord,
+            reason = "an error that is not a number doesn't meet the target either"
+        )]
+        while !(current_err <= max_err) {
             trace!(
                 "Method: {:?} Iterations: {} Error: {} Target: {}",
                 method,
                 iterations,
                 current_err,
-                target_error
+                max_err
             );
             iterations += 1;
             self.compress_hinted(data, baseline_points + jump);
@@ -252,7 +254,7 @@ impl Polynomial {
                 1..=17 => jump += (data_len / 10).max(1),
                 18..=22 => jump += (data_len / 100).max(1),
                 // No more jumping, but we landed right in the end
-                _ if target_error > round_f64(current_err, 4) => break,
+                _ if current_err <= max_err => break,
                 // We can't hit the target, store everything
                 _ => {
                     self.compress_hinted(data, data_len);
-- 
2.43.0


From 22b83dbfc8b5319fffd102326af633b96869833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 05/27] fix: the FFT error is the error of the samples it gives
 back

It was measured on the padded data, and taken for 0 when minimum and
maximum are the same single precision number.
---
 atsc/src/compressor/fft.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index 4c9fa07..9502d2a 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -288,6 +288,8 @@ impl FFT {
     pub fn compress_bounded(&mut self, data: &[f64], max_err: f64) {
         if self.max_value == self.min_value {
             debug!("Same max and min, we're done here!");
+            // The same for f32, the data might still differ from it
+            self.error = Some(calculate_error(data, &self.to_data(data.len())));
             return;
         }
 
@@ -310,6 +312,8 @@ impl FFT {
 
         let len = g_data.len();
         let len_f32 = len as f32;
+        // Where the data starts, the padding is removed on decompression
+        let prefix_len = (len - data.len()) / 2;
 
         // Clean the data
         let mut buffer = FFT::optimize(g_data);
@@ -340,9 +344,11 @@ impl FFT {
             ifft.process(&mut idata);
             let out_data: Vec<f64> = idata
                 .iter()
+                .skip(prefix_len)
+                .take(data.len())
                 .map(|&f| self.round(f.re / len_f32, DECIMAL_PRECISION.into()))
                 .collect();
-            current_err = calculate_error(g_data, &out_data);
+            current_err = calculate_error(data, &out_data);
             trace!("Current Err: {}", current_err);
             // Max iterations is 22 (We start at 10%, we can go to 95% and 1% at a time)
             match iterations {
-- 
2.43.0


From b7523940fd3ab01f044bcd455e7037f3283f4a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 06/27] fix: the compressor picked from a sample must hold the
 error on the frame

---
 atsc/src/frame/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/atsc/src/frame/mod.rs b/atsc/src/frame/mod.rs
index 1f726e4..dff4a09 100644
--- a/atsc/src/frame/mod.rs
+++ b/atsc/src/frame/mod.rs
@@ -105,10 +105,22 @@ impl CompressorFrame {
                 .unwrap();
             self.compressor = *chosen_compressor;
             // Now do the full data compression
-            self.data = self
+            let mut result = self
                 .compressor
-                .get_compress_bounded_results(data, max_error as f64)
-                .compressed_data;
+                .get_compress_bounded_results(data, max_error as f64);
+            #[allow(
+                clippy::neg_cmp_op_on_partial_ord,
+                reason = "an error that is not a number is not within the maximum either"
+            )]
+            if !(result.error <= max_error as f64) {
+                // What held for the sample doesn't hold for the full data,
+                // use the compressor that can reach any error
+                self.compressor = Compressor::Polynomial;
+                result = self
+                    .compressor
+                    .get_compress_bounded_results(data, max_error as f64);
+            }
+            self.data = result.compressed_data;
         } else {
             // Run all the eligible compressors and choose smallest
             let compressor_results: Vec<_> = compressor_list
-- 
2.43.0


From 7f696dbaae44a2c5682bf7a30af0fc54138cce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 07/27] fix: a file that fails does not end the walk of its
 directory

It was processed a second time and the error of that ended the command.
---
 atsc/src/main.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/atsc/src/main.rs b/atsc/src/main.rs
index 21f1be8..ecede3d 100644
--- a/atsc/src/main.rs
+++ b/atsc/src/main.rs
@@ -60,8 +60,6 @@ fn process_directory(arguments: &Args) -> Result<(), Box<dyn Error>> {
                 //      output for the time beeing.
                 Err(err) => error!("{} File: {}", err, path.display()),
             }
-            // We need to make sure we skip anything but BRO and WBRO, this can be done on single file processors
-            process_single_file(path, arguments)?;
         }
     }
     Ok(())
-- 
2.43.0


From 4f225d600b3a1cb8022712205bae4b64a8315e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 08/27] fix: the compressed form of an empty series can be
 decompressed

It has 10 bytes, and 12 were needed to recognise the file.
---
 atsc/src/utils/readers/bro_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atsc/src/utils/readers/bro_reader.rs b/atsc/src/utils/readers/bro_reader.rs
index f2b7e37..bb12740 100644
--- a/atsc/src/utils/readers/bro_reader.rs
+++ b/atsc/src/utils/readers/bro_reader.rs
@@ -37,9 +37,9 @@ pub fn read_file(file_path: &Path) -> Result<Option<Vec<u8>>, Error> {
     }
 }
 fn is_bro_file(file_path: &Path) -> io::Result<bool> {
-    // Open the file for reading and read the first 12 bytes (header) of the file
+    // Open the file for reading and read the first 4 bytes (magic) of the file
     let mut file = fs::File::open(file_path)?;
-    let mut header = [0u8; 12];
+    let mut header = [0u8; 4];
     file.read_exact(&mut header)?;
     // Check if the file starts with "BRRO"
     Ok(header.starts_with(b"BRRO"))
-- 
2.43.0


From 5e93be2383dc393de84c3b251c2b1b8e89832f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 09/27] fix: more than 255 frames do not overflow the frame
 count

---
 atsc/src/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atsc/src/header.rs b/atsc/src/header.rs
index 807b00e..8937ace 100644
--- a/atsc/src/header.rs
+++ b/atsc/src/header.rs
@@ -50,7 +50,8 @@ impl CompressorHeader {
     }
 
     pub fn add_frame(&mut self) {
-        self.frame_count += 1;
+        // The decoder relies on the frame list, the count may fall short of it
+        self.frame_count = self.frame_count.saturating_add(1);
     }
 
     pub fn get_frame_count(&mut self) -> u8 {
-- 
2.43.0


From 822838c4591c91d146d8a435ebc13505b11bff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 10/27] fix: a WBRO file written in part is an error

write_at may write less than asked for, and does when a limit is reached.
---
 wavbrro/src/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wavbrro/src/write.rs b/wavbrro/src/write.rs
index e21cd25..938b43e 100644
--- a/wavbrro/src/write.rs
+++ b/wavbrro/src/write.rs
@@ -21,7 +21,7 @@ use std::path::Path;
 pub fn write_wavbrro_file(file_path: &Path, content: &[u8]) {
     let header: [u8; 12] = *b"WBRO0000WBRO";
     let file = File::create(file_path).expect("Can't create file!");
-    file.write_at(&header, 0).expect("Fail to write header");
-    file.write_at(content, header.len() as u64)
+    file.write_all_at(&header, 0).expect("Fail to write header");
+    file.write_all_at(content, header.len() as u64)
         .expect("Fail to write content");
 }
-- 
2.43.0


From 1785b1e4733caac7bc6cac8a4cca054fc2efe03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 11/27] fix: a CSV file written in part is an error

---
 csv-compressor/src/csv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/csv-compressor/src/csv.rs b/csv-compressor/src/csv.rs
index a0fdc09..ceff16e 100644
--- a/csv-compressor/src/csv.rs
+++ b/csv-compressor/src/csv.rs
@@ -53,6 +53,8 @@ pub fn write_samples_to_csv_file(dest: &Path, samples: &[Sample]) -> Result<(),
     for sample in samples {
         writer.serialize(sample)?;
     }
+    // Dropping the writer would lose the error of the last write
+    writer.flush()?;
 
     Ok(())
 }
-- 
2.43.0


From e60202521877980685f2a9a8bb3de60bffd07890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 12/27] fix: samples that are not finite do not shift
 timestamps

The compressor drops them, while the index kept their timestamps.
---
 csv-compressor/src/metric.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/csv-compressor/src/metric.rs b/csv-compressor/src/metric.rs
index f508d00..e75e691 100644
--- a/csv-compressor/src/metric.rs
+++ b/csv-compressor/src/metric.rs
@@ -54,6 +54,10 @@ impl Metric {
 
     pub fn append_samples(&mut self, samples: &[Sample]) -> Result<(), Error> {
         for sample in samples {
+            // The compressor drops these, so they can't be in the index
+            if !sample.value.is_finite() {
+                continue;
+            }
             // For solution simplification it generates only 1 WavBrro and 1 VSRI
             let ts = day_elapsed_seconds(sample.timestamp / 1000);
             self.vsri
-- 
2.43.0


From 9a69d768d3fd70d52bb0ed5e1080511347c8663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 13/27] fix: a malformed CSV record is an error, not a panic

The panic ended the processing of the rest of a directory.
---
 atsc/src/csv.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atsc/src/csv.rs b/atsc/src/csv.rs
index eb08d9b..1a9c8e4 100644
--- a/atsc/src/csv.rs
+++ b/atsc/src/csv.rs
@@ -55,7 +55,7 @@ pub fn read_samples_with_headers(
     // Collect samples
     let mut samples = Vec::new();
     for record in reader.records() {
-        let record = record.unwrap();
+        let record = record.map_err(|_| Error::Unexpected)?;
         // let timestamp: DateTime<Utc> = record.get(timestamp_idx).unwrap().parse()?;
         let value: f64 = record
             .get(value_idx)
@@ -81,7 +81,7 @@ pub fn read_samples(filepath: &Path) -> Result<Vec<Sample>> {
     // Collect samples
     let mut samples = Vec::new();
     for record in reader.records() {
-        let record = record.unwrap();
+        let record = record.map_err(|_| Error::Unexpected)?;
         let value: f64 = record
             .get(0) // assuming that there is only a single field with values inside
             .unwrap()
-- 
2.43.0


From 716a9964c413608f65367d3c11088d65159677e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 14/27] fix: time of a sample beyond the first index segment

The position in the file was used as the position in the segment, and the
position after the last sample had a time.
---
 vsri/src/lib.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 0487e53..ed2bafa 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -328,24 +328,15 @@ impl Vsri {
 
     /// For a given sample position, return the timestamp associated
     pub fn get_time(&self, x: i32) -> Option<i32> {
-        match x {
-            0 => Some(self.min()),
-            _ if x > self.get_sample_count() => None,
-            _ if x == self.get_sample_count() => Some(self.max()),
-            // it is somewhere in the middle
-            _ => {
-                // Find the segment where X fits
-                for segment in &self.vsri_segments {
-                    if x >= segment[1] && x < (segment[1] + segment[3]) {
-                        // Belongs here! Return Segment TS + the TS interval * x
-                        let y = segment[2] + segment[0] * x;
-                        return Some(y);
-                    }
-                    continue;
-                }
-                None
+        // Find the segment where X fits
+        for segment in &self.vsri_segments {
+            if x >= segment[1] && x < (segment[1] + segment[3]) {
+                // Belongs here! Return Segment TS + the TS interval * the position in the segment
+                let y = segment[2] + segment[0] * (x - segment[1]);
+                return Some(y);
             }
         }
+        None
     }
 
     /// Returns a vector will all the timestamps covered by this index
-- 
2.43.0


From 225071748d0cd168b7d73c09fc90f6c27d588976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 15/27] fix: a timestamp off the line of an index segment
 starts a new one

The integer division took timestamps up to one interval late for fitting,
and the index then gave a wrong time for them.
---
 vsri/src/lib.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index ed2bafa..2792a52 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -393,21 +393,13 @@ impl Vsri {
     /// Returns true if a point fits the last segment of the index
     fn fits_segment(&self, y: i32) -> bool {
         let last_segment = self.current_segment();
-        let b = self.calculate_b(&last_segment);
-        // What we have to check, is with the given y, calculate x.
-        // Then check if x fits the interval for the current line
-        // and it has to be the next one in the line
-        // x = (y - b)/ m
-        // TODO: Can return float, watch out
-        let x_value = (y - b) / last_segment[0];
+        // What we have to check, is that the given y is exactly the next one in the line
+        let next_y = last_segment[2] + last_segment[0] * last_segment[3];
         debug!(
-            "[INDEX] Fit Calculation (Segment {:?}). b: {},  x: {}, calculated x: {}",
-            last_segment,
-            b,
-            (last_segment[3] + last_segment[1]),
-            x_value
+            "[INDEX] Fit Calculation (Segment {:?}). Next y: {}, y: {}",
+            last_segment, next_y, y
         );
-        x_value == last_segment[3] + last_segment[1]
+        y == next_y
     }
 
     /// Writes the index to the disk
-- 
2.43.0


From 545fe6be2f2a7cea3ed7df5274b8c845b8aa89bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 16/27] fix: the index counts samples with the same timestamp

From the third sample on they were accepted, but not counted.
---
 vsri/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 2792a52..1a97fd1 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -266,7 +266,7 @@ impl Vsri {
             return Ok(());
         }
         if self.is_fake_segment() {
-            // In the presence of a fake segment (where m is 0), and a new point, we are now
+            // In the presence of a fake segment (a single sample), and a new point, we are now
             // in a situation we can calculate a decent segment
             self.vsri_segments[segment_count - 1] = self.generate_segment(y);
         } else {
@@ -384,10 +384,11 @@ impl Vsri {
         [0, x, y, 1]
     }
 
-    /// Checks if the most recent segment is a fake segment
+    /// Checks if the most recent segment is a fake segment, that is, has a single sample.
+    /// A segment with samples that all have the same timestamp has m at 0 too.
     fn is_fake_segment(&self) -> bool {
         let last_segment = self.current_segment();
-        last_segment[0] == 0
+        last_segment[3] == 1
     }
 
     /// Returns true if a point fits the last segment of the index
-- 
2.43.0


From f1ea293ec119609d83e4747b5b76dd8e349efec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 17/27] fix: looking up a timestamp in the index finds exactly
 that timestamp

A segment of a single sample made it divide by zero, and a timestamp
between two samples was given the position of the first.
---
 vsri/src/lib.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 1a97fd1..002dde6 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -293,12 +293,6 @@ impl Vsri {
         self.max_ts
     }
 
-    fn calculate_b(&self, segment: &[i32; 4]) -> i32 {
-        // b = y - mx
-
-        segment[2] - segment[0] * segment[1]
-    }
-
     /// Returns the most recent (the last) calculated segment
     fn current_segment(&self) -> [i32; 4] {
         match self.vsri_segments.len() {
@@ -317,10 +311,16 @@ impl Vsri {
             let segment_end_y = y0 + (sample_rate * (num_samples - 1));
 
             if y >= y0 && y <= segment_end_y {
-                // x = (y - b)/ m
-                // TODO: This can return floats!
-                let x_value = (y - self.calculate_b(segment)) / sample_rate;
-                return Some(x_value);
+                if sample_rate == 0 {
+                    // All the samples have this timestamp
+                    return Some(segment[1]);
+                }
+                if (y - y0) % sample_rate != 0 {
+                    // In between 2 samples
+                    return None;
+                }
+                // x = x0 + (y - y0) / m
+                return Some(segment[1] + (y - y0) / sample_rate);
             }
         }
         None // No matching segment found for the given Y value
-- 
2.43.0


From e1d3bdc3420c791d11bcf3cc5d8c659e22774952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 18/27] fix: next and previous sample for any timestamp

The next sample was looked for in the last segment first, the previous one
after the maximum was beyond the last sample, and timestamps between two
samples of a segment had neither.
---
 vsri/src/lib.rs | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 002dde6..14a2b56 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -152,18 +152,22 @@ impl Vsri {
     /// is in between segments. It will return None in case the timestamp is over
     /// the maximum timestamp of the index.
     pub fn get_next_sample(&self, y: i32) -> Option<i32> {
-        if y < self.min() {
-            return Some(0);
-        } else if y >= self.max() {
+        if y >= self.max() {
             return None;
         }
-        // It wasn't smaller, so let's see if we have a sample that matches
-        for segment in self.vsri_segments.iter().rev() {
+        // It isn't over the maximum, so let's find the first sample from there on
+        for segment in &self.vsri_segments {
+            let sample_rate = segment[0];
             let first_sample = segment[1];
             let y0 = segment[2];
+            let segment_end_y = y0 + (sample_rate * (segment[3] - 1));
             if y <= y0 {
                 return Some(first_sample);
             }
+            if y <= segment_end_y {
+                // Inside of the segment, round up to the next sample
+                return Some(first_sample + (y - y0 + sample_rate - 1) / sample_rate);
+            }
         }
         None
     }
@@ -173,19 +177,19 @@ impl Vsri {
     /// is in between segments. It will return None in case the timestamp is bellow
     /// the minimum timestamp of the index.
     pub fn get_previous_sample(&self, y: i32) -> Option<i32> {
-        if y < self.min() {
-            return None;
-        } else if y >= self.max() {
-            // Return the last segment, # of samples. That is the total # of samples in a file
-            return Some(self.get_sample_count());
-        }
-        // Cycle through the segments
-        for segment in &self.vsri_segments {
+        // Cycle through the segments, from the last one
+        for segment in self.vsri_segments.iter().rev() {
+            let sample_rate = segment[0];
             let first_sample = segment[1];
             let y0 = segment[2];
-            if y < y0 {
-                // Return the last sample of the previous segment
-                return Some(first_sample - 1);
+            let last_in_segment = segment[3] - 1;
+            if y >= y0 + sample_rate * last_in_segment {
+                // Return the last sample of the segment
+                return Some(first_sample + last_in_segment);
+            }
+            if y >= y0 {
+                // Inside of the segment, round down to the previous sample
+                return Some(first_sample + (y - y0) / sample_rate);
             }
         }
         None
-- 
2.43.0


From 7e14515846661244f02df871228b2ebfbd6eac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 19/27] fix: the last sample of an index segment is part of it

A time range holding just that sample was reported as empty.
---
 vsri/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 14a2b56..3b0e82f 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -230,8 +230,8 @@ impl Vsri {
                     }
                     // Could this be simplified with Karnaugh map? I'll dig my books later
                     // It starts or ends inside the segment
-                    if (time_segment[0] >= y0 && time_segment[0] < segment_end_y)
-                        || (time_segment[1] < segment_end_y && time_segment[1] >= y0)
+                    if (time_segment[0] >= y0 && time_segment[0] <= segment_end_y)
+                        || (time_segment[1] <= segment_end_y && time_segment[1] >= y0)
                     {
                         return false;
                     }
-- 
2.43.0


From 29dc66a59b56c67fc4c785be6e30dbc0dc992f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 20/27] fix: refuse a WAV file that cannot be read instead of
 writing an empty series

---
 tools/src/bin/wav2wbro.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/tools/src/bin/wav2wbro.rs b/tools/src/bin/wav2wbro.rs
index 7d9c7f2..30f242e 100644
--- a/tools/src/bin/wav2wbro.rs
+++ b/tools/src/bin/wav2wbro.rs
@@ -33,13 +33,7 @@ fn is_wav_file(file_path: &Path) -> bool {
 }
 
 fn read_metrics_from_wav(filename: &str) -> Vec<f64> {
-    let r_reader = hound::WavReader::open(filename);
-    let mut reader = match r_reader {
-        Ok(reader) => reader,
-        Err(_err) => {
-            return Vec::new();
-        }
-    };
+    let mut reader = hound::WavReader::open(filename).expect("Can't read WAV file!");
     let num_channels = reader.spec().channels as usize;
 
     let mut raw_data: Vec<f64> = Vec::new();
-- 
2.43.0


From 82f5b6d15a7b1ec081d8dad56984af8b93c2da9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 21/27] fix: csv-compressor shifted sub-second timestamps
 before 1970 by a second

---
 csv-compressor/src/metric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csv-compressor/src/metric.rs b/csv-compressor/src/metric.rs
index e75e691..dd06ae6 100644
--- a/csv-compressor/src/metric.rs
+++ b/csv-compressor/src/metric.rs
@@ -59,7 +59,7 @@ impl Metric {
                 continue;
             }
             // For solution simplification it generates only 1 WavBrro and 1 VSRI
-            let ts = day_elapsed_seconds(sample.timestamp / 1000);
+            let ts = day_elapsed_seconds(sample.timestamp.div_euclid(1000));
             self.vsri
                 .update_for_point(ts)
                 .map_err(|_| Error::UpdateForPointError(sample.clone()))?;
-- 
2.43.0


From d246136e0649db1c5469ac41b994d3b998cce7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 22/27] fix: csv-compressor took a file whose header cannot be
 read for an empty one

---
 csv-compressor/src/csv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/csv-compressor/src/csv.rs b/csv-compressor/src/csv.rs
index ceff16e..6dcd81d 100644
--- a/csv-compressor/src/csv.rs
+++ b/csv-compressor/src/csv.rs
@@ -43,6 +43,8 @@ impl Sample {
 pub fn read_samples_from_csv_file(dest: &Path) -> Result<Vec<Sample>, csv::Error> {
     let file = OpenOptions::new().read(true).open(dest)?;
     let mut reader = csv::Reader::from_reader(file);
+    // deserialize() takes headers that can't be read for no headers, and then there are no rows
+    reader.headers()?;
     reader.deserialize().collect()
 }
 
-- 
2.43.0


From ca8d009671a1424fc6964c9c2a44e6d294ebb418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:15 +0000
Subject: [PATCH 23/27] fix: fft without an error bound pads the frame as
 decompression expects

---
 atsc/src/compressor/fft.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index 9502d2a..780a713 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -269,9 +269,15 @@ impl FFT {
         if !v.is_power_of_two() {
             warn!("Slow FFT, data segment is not a power of 2!");
         }
+        // Decompression expects the Gibbs sizing
+        let g_data: &[f64] = if v >= 128 {
+            &FFT::gibbs_sizing(data)
+        } else {
+            data
+        };
         let mut planner = FftPlanner::new();
-        let fft = planner.plan_fft_forward(v);
-        let mut buffer = FFT::optimize(data);
+        let fft = planner.plan_fft_forward(g_data.len());
+        let mut buffer = FFT::optimize(g_data);
         // The data is processed in place, it gets back to the buffer
         fft.process(&mut buffer);
         // We need half + 1 frequencies at most, due to the mirrored nature of FFT (signal is always real!)
@@ -381,9 +387,15 @@ impl FFT {
         if !v.is_power_of_two() {
             warn!("Slow FFT, data segment is not a power of 2!");
         }
+        // Decompression expects the Gibbs sizing
+        let g_data: &[f64] = if v >= 128 {
+            &FFT::gibbs_sizing(data)
+        } else {
+            data
+        };
         let mut planner = FftPlanner::new();
-        let fft = planner.plan_fft_forward(v);
-        let mut buffer = FFT::optimize(data);
+        let fft = planner.plan_fft_forward(g_data.len());
+        let mut buffer = FFT::optimize(g_data);
         // The data is processed in place, it gets back to the buffer
         fft.process(&mut buffer);
         // We need half + 1 frequencies at most, due to the mirrored nature of FFT (signal is always real!)
-- 
2.43.0


From cdf350efead128264f0a5eacf5ac3c79474f7c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:56 +0000
Subject: [PATCH 24/27] fix: a frequency beyond position 65535 is not stored as
 another one

---
 atsc/src/compressor/fft.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index 780a713..747863e 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -239,6 +239,8 @@ impl FFT {
         let tmp_vec: Vec<FrequencyPoint> = buffer
             .iter()
             .enumerate()
+            // Positions beyond u16 can't be stored
+            .take(u16::MAX as usize + 1)
             .map(|(pos, &f)| FrequencyPoint::from_complex_with_position(f, pos as u16))
             .collect();
         // This part, is because Binary heap is very good at "give me the top N elements"
-- 
2.43.0


From ccce973a04fe479601af900dbf8431ae566c4763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:25 +0000
Subject: [PATCH 25/27] fix: the symmetric percentage error is the mean of its
 terms

---
 atsc/src/utils/error.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/atsc/src/utils/error.rs b/atsc/src/utils/error.rs
index f2af873..b66d507 100644
--- a/atsc/src/utils/error.rs
+++ b/atsc/src/utils/error.rs
@@ -125,16 +125,15 @@ pub fn error_smape(original: &[f64], generated: &[f64]) -> f64 {
         panic!("Can't compute error! Arrays with different lenghts.")
     }
 
-    let mut sum_up = 0.0;
-    let mut sum_down = 0.0;
+    let mut sum = 0.0;
     for (&value_original, &value_generated) in original.iter().zip(generated) {
         if value_generated == 0.0 && value_original == 0.0 {
             continue;
         }
-        sum_up += (value_generated - value_original).abs();
-        sum_down += value_original.abs() + value_generated.abs();
+        sum += (value_generated - value_original).abs()
+            / (value_original.abs() + value_generated.abs());
     }
-    (sum_up / sum_down) / original.len() as f64
+    sum / original.len() as f64
 }
 
 #[cfg(test)]
-- 
2.43.0


From e4e3b74dbb158949122988692832b90814a02c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:53 +0000
Subject: [PATCH 26/27] fix: the index takes timestamps whose run would go on
 beyond the last timestamp there is

---
 vsri/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 3b0e82f..a868301 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -399,12 +399,14 @@ impl Vsri {
     fn fits_segment(&self, y: i32) -> bool {
         let last_segment = self.current_segment();
         // What we have to check, is that the given y is exactly the next one in the line
-        let next_y = last_segment[2] + last_segment[0] * last_segment[3];
+        // It can be beyond the last timestamp there is
+        let next_y =
+            i64::from(last_segment[2]) + i64::from(last_segment[0]) * i64::from(last_segment[3]);
         debug!(
             "[INDEX] Fit Calculation (Segment {:?}). Next y: {}, y: {}",
             last_segment, next_y, y
         );
-        y == next_y
+        i64::from(y) == next_y
     }
 
     /// Writes the index to the disk
-- 
2.43.0


From 6608729f28effbfd0aa93d436f5832c808d5c8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:56 +0000
Subject: [PATCH 27/27] fix: rounding up to the next sample of a run overflowed
 for runs of large steps

---
 vsri/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index a868301..2d18a04 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -166,7 +166,7 @@ impl Vsri {
             }
             if y <= segment_end_y {
                 // Inside of the segment, round up to the next sample
-                return Some(first_sample + (y - y0 + sample_rate - 1) / sample_rate);
+                return Some(first_sample + (y - y0 - 1) / sample_rate + 1);
             }
         }
         None
-- 
2.43.0

