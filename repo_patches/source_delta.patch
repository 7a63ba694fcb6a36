From 8b092e0356fd84b20062cbdd438e157e332cdf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:52 +0000
Subject: [PATCH 1/6] fix: pass the MixedRadixNxn inner DHT the scratch space
 it asks for

The in-place path handed the inner DHT's out-of-place call an empty scratch
buffer, and over-advertised its own, so an inner DHT with scratch needs of its
own panicked. The out-of-place path advertised extra scratch but never used it.
---
 src/scalar/radix2.rs | 24 +++++++++---------------
 src/scalar/radix3.rs | 24 +++++++++---------------
 src/scalar/radix4.rs | 24 +++++++++---------------
 src/scalar/radix5.rs | 24 +++++++++---------------
 src/scalar/radix6.rs | 24 +++++++++---------------
 5 files changed, 45 insertions(+), 75 deletions(-)

diff --git a/src/scalar/radix2.rs b/src/scalar/radix2.rs
index daaf7df..8394882 100644
--- a/src/scalar/radix2.rs
+++ b/src/scalar/radix2.rs
@@ -49,18 +49,9 @@ impl<T: FftNum> MixedRadix2xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, we need self.len() elements to bounce data around. Our height DHT is computed out-of-place, between our own scratch and the buffer,
+        // so both are in use while it runs. If it requires any scratch of its own, we tack that on to the end of our own scratch, and use split_at_mut to separate the two
+        let inplace_scratch_len = len + height_dht.get_outofplace_scratch_len();
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -123,11 +114,13 @@ impl<T: FftNum> MixedRadix2xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 2, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -137,13 +130,14 @@ impl<T: FftNum> MixedRadix2xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 2, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() { scratch } else { input };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix3.rs b/src/scalar/radix3.rs
index f628d13..1f40980 100644
--- a/src/scalar/radix3.rs
+++ b/src/scalar/radix3.rs
@@ -53,18 +53,9 @@ impl<T: FftNum> MixedRadix3xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, we need self.len() elements to bounce data around. Our height DHT is computed out-of-place, between our own scratch and the buffer,
+        // so both are in use while it runs. If it requires any scratch of its own, we tack that on to the end of our own scratch, and use split_at_mut to separate the two
+        let inplace_scratch_len = len + height_dht.get_outofplace_scratch_len();
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -147,11 +138,13 @@ impl<T: FftNum> MixedRadix3xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 3, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -161,13 +154,14 @@ impl<T: FftNum> MixedRadix3xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 3, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() { scratch } else { input };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix4.rs b/src/scalar/radix4.rs
index ee179b3..a327346 100644
--- a/src/scalar/radix4.rs
+++ b/src/scalar/radix4.rs
@@ -50,18 +50,9 @@ impl<T: FftNum> MixedRadix4xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, we need self.len() elements to bounce data around. Our height DHT is computed out-of-place, between our own scratch and the buffer,
+        // so both are in use while it runs. If it requires any scratch of its own, we tack that on to the end of our own scratch, and use split_at_mut to separate the two
+        let inplace_scratch_len = len + height_dht.get_outofplace_scratch_len();
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -153,11 +144,13 @@ impl<T: FftNum> MixedRadix4xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 4, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -167,13 +160,14 @@ impl<T: FftNum> MixedRadix4xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 4, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() { scratch } else { input };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix5.rs b/src/scalar/radix5.rs
index fe98611..4644fd0 100644
--- a/src/scalar/radix5.rs
+++ b/src/scalar/radix5.rs
@@ -54,18 +54,9 @@ impl<T: FftNum> MixedRadix5xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, we need self.len() elements to bounce data around. Our height DHT is computed out-of-place, between our own scratch and the buffer,
+        // so both are in use while it runs. If it requires any scratch of its own, we tack that on to the end of our own scratch, and use split_at_mut to separate the two
+        let inplace_scratch_len = len + height_dht.get_outofplace_scratch_len();
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -170,11 +161,13 @@ impl<T: FftNum> MixedRadix5xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 5, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -184,13 +177,14 @@ impl<T: FftNum> MixedRadix5xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 5, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() { scratch } else { input };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix6.rs b/src/scalar/radix6.rs
index 6116774..fc0d9c4 100644
--- a/src/scalar/radix6.rs
+++ b/src/scalar/radix6.rs
@@ -55,18 +55,9 @@ impl<T: FftNum> MixedRadix6xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, we need self.len() elements to bounce data around. Our height DHT is computed out-of-place, between our own scratch and the buffer,
+        // so both are in use while it runs. If it requires any scratch of its own, we tack that on to the end of our own scratch, and use split_at_mut to separate the two
+        let inplace_scratch_len = len + height_dht.get_outofplace_scratch_len();
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -186,11 +177,13 @@ impl<T: FftNum> MixedRadix6xn<T> {
 
     
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 6, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -200,13 +193,14 @@ impl<T: FftNum> MixedRadix6xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 6, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() { scratch } else { input };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
-- 
2.43.0


From 33b3281cd86b4ed541fd9776ef2609f6378ce367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:52 +0000
Subject: [PATCH 2/6] fix: pass SplitRadix's inner DHTs the scratch space they
 ask for

The advertised scratch ignored what the inner DHTs require, and the quarter DHT's
out-of-place call was always handed an empty scratch buffer.
---
 src/scalar/split_radix.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/scalar/split_radix.rs b/src/scalar/split_radix.rs
index 2cff5b2..87d6f59 100644
--- a/src/scalar/split_radix.rs
+++ b/src/scalar/split_radix.rs
@@ -33,14 +33,32 @@ impl<T: FftNum> SplitRadix<T> {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(x * 3, len));
         }
 
+        // For the in-place DHT, the half DHT runs in-place before anything lives in our scratch, so it can use all of it.
+        // The quarter DHT is computed out-of-place into the first `half_len` elements, so if it requires any scratch of its own, we tack that on to the end
+        let inplace_scratch_len = usize::max(
+            half_len + quarter_dht.get_outofplace_scratch_len(),
+            half_dht.get_inplace_scratch_len(),
+        );
+
+        // For the out-of-place DHT, both inner DHTs are in-place, and can use the output buffer as scratch unless one of them requires more than that
+        let max_inner_inplace_scratch = usize::max(
+            half_dht.get_inplace_scratch_len(),
+            quarter_dht.get_inplace_scratch_len(),
+        );
+        let outofplace_scratch_len = if max_inner_inplace_scratch > len {
+            max_inner_inplace_scratch
+        } else {
+            0
+        };
+
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
             quarter_dht,
             half_dht,
 
-            inplace_scratch_len: half_len,
-            outofplace_scratch_len: 0,
+            inplace_scratch_len,
+            outofplace_scratch_len,
             len,
         }
     }
@@ -121,7 +139,9 @@ impl<T: FftNum> SplitRadix<T> {
         let (buffer_evens, buffer_odds) = buffer.split_at_mut(half_len);
 
         self.half_dht.process_with_scratch(buffer_evens, scratch);
-        self.quarter_dht.process_outofplace_with_scratch(buffer_odds, scratch, &mut []);
+
+        let (scratch, inner_scratch) = scratch.split_at_mut(half_len);
+        self.quarter_dht.process_outofplace_with_scratch(buffer_odds, scratch, inner_scratch);
         
         let (scratch_quarter1, scratch_quarter3) = scratch.split_at_mut(quarter_len);
 
@@ -137,7 +157,7 @@ impl<T: FftNum> SplitRadix<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         self.apply_twiddles(input);
         
@@ -146,8 +166,9 @@ impl<T: FftNum> SplitRadix<T> {
 
         let (buffer_evens, buffer_odds) = input.split_at_mut(half_len);
         
-        self.half_dht.process_with_scratch(buffer_evens, output);
-        self.quarter_dht.process_with_scratch(buffer_odds, output);
+        let inner_scratch: &mut [T] = if scratch.len() > output.len() { scratch } else { output };
+        self.half_dht.process_with_scratch(buffer_evens, inner_scratch);
+        self.quarter_dht.process_with_scratch(buffer_odds, inner_scratch);
 
         let (buffer_quarter1, buffer_quarter3) = buffer_odds.split_at_mut(quarter_len);
 
-- 
2.43.0


From 0f0a29f5cfde0f75a7bd6854cb24c8a431ee8d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:52 +0000
Subject: [PATCH 3/6] fix: compute sqrt(1/2) scaled twiddles in f64 instead of
 f32 precision

With T = f64 the mixed radix twiddles were only accurate to f32 precision.
---
 src/scalar/mixed_radix.rs | 2 +-
 src/scalar/radix3.rs      | 2 +-
 src/scalar/radix5.rs      | 2 +-
 src/scalar/radix6.rs      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scalar/mixed_radix.rs b/src/scalar/mixed_radix.rs
index 5868c47..6170642 100644
--- a/src/scalar/mixed_radix.rs
+++ b/src/scalar/mixed_radix.rs
@@ -52,7 +52,7 @@ impl<T: FftNum> MixedRadix<T> {
         let column_limit = height / 2 + 1;
 
         let mut twiddles = Vec::with_capacity(row_limit * column_limit);
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         for row in 1..row_limit {
             for column in 1..column_limit {
                 // Our twiddle will be a one-eigth turn around the circle from what the basic "row * column" twiddle would have been, times sqrt(0.5)
diff --git a/src/scalar/radix3.rs b/src/scalar/radix3.rs
index 1f40980..7994ab9 100644
--- a/src/scalar/radix3.rs
+++ b/src/scalar/radix3.rs
@@ -30,7 +30,7 @@ impl<T: FftNum> MixedRadix3xn<T> {
 
         let twiddle_limit = height / 2 + 1;
 
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         let mut twiddles = Vec::with_capacity((twiddle_limit - 1) * 2);
         for column in 1..twiddle_limit {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(column * 1 * 8 + len, len * 8) * root2);
diff --git a/src/scalar/radix5.rs b/src/scalar/radix5.rs
index 4644fd0..af9c5ae 100644
--- a/src/scalar/radix5.rs
+++ b/src/scalar/radix5.rs
@@ -30,7 +30,7 @@ impl<T: FftNum> MixedRadix5xn<T> {
 
         let twiddle_limit = height / 2 + 1;
 
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         let mut twiddles = Vec::with_capacity((twiddle_limit - 1) * 2);
         for column in 1..twiddle_limit {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(column * 1 * 8 + len, len * 8) * root2);
diff --git a/src/scalar/radix6.rs b/src/scalar/radix6.rs
index fc0d9c4..0c84843 100644
--- a/src/scalar/radix6.rs
+++ b/src/scalar/radix6.rs
@@ -31,7 +31,7 @@ impl<T: FftNum> MixedRadix6xn<T> {
         let column_limit = height / 2 + 1;
 
         let mut twiddles = Vec::with_capacity(3 * (column_limit - 1));
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         for column in 1..column_limit {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(1 * column * 8 + len, len * 8) * root2);
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(2 * column * 8 + len, len * 8) * root2);
-- 
2.43.0


From 1b26d628045bf0787a054c1eb02defdbedd4a2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:52 +0000
Subject: [PATCH 4/6] fix: find the primitive root of 2, so that
 RadersAlgorithm supports length 2

---
 src/math_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_utils.rs b/src/math_utils.rs
index e8a9b80..8a53d2b 100644
--- a/src/math_utils.rs
+++ b/src/math_utils.rs
@@ -59,7 +59,7 @@ pub fn primitive_root(prime: u64) -> Option<u64> {
         .iter()
         .map(|factor| (prime - 1) / factor)
         .collect();
-    'next: for potential_root in 2..prime {
+    'next: for potential_root in 1..prime {
         // for each distinct factor, if potential_root^(p-1)/factor mod p is 1, reject it
         for exp in &test_exponents {
             if modular_exponent(potential_root, *exp, prime) == 1 {
-- 
2.43.0


From 6a5bd7235056349c24fb429383073a3171f32071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:52 +0000
Subject: [PATCH 5/6] fix: reject empty buffers in Butterfly1 like every other
 Dht

---
 src/scalar/butterflies.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/scalar/butterflies.rs b/src/scalar/butterflies.rs
index baf16a3..065f735 100644
--- a/src/scalar/butterflies.rs
+++ b/src/scalar/butterflies.rs
@@ -105,10 +105,17 @@ impl<T: FftNum> Dht<T> for Butterfly1<T> {
         output: &mut [T],
         _scratch: &mut [T],
     ) {
+        if input.len() < self.len() || output.len() != input.len() {
+            dht_error_outofplace(self.len(), input.len(), output.len(), 0, 0);
+        }
         output.copy_from_slice(&input);
     }
 
-    fn process_with_scratch(&self, _buffer: &mut [T], _scratch: &mut [T]) {}
+    fn process_with_scratch(&self, buffer: &mut [T], _scratch: &mut [T]) {
+        if buffer.len() < self.len() {
+            dht_error_inplace(self.len(), buffer.len(), 0, 0);
+        }
+    }
     fn get_inplace_scratch_len(&self) -> usize { 0 }
     fn get_outofplace_scratch_len(&self) -> usize { 0 }
 }
-- 
2.43.0


From 12769a0cdf0ff96fba8f4e730c02e58993fcbc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:29 +0000
Subject: [PATCH 6/6] fix: reorder reversed rows correctly in Radix4

Lengths of 128 and above recurse into prepare_radix4_reversed, which split a
reversed row as if it were in forward order, so every result was wrong.
---
 src/scalar/radix4.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/scalar/radix4.rs b/src/scalar/radix4.rs
index a327346..8034d98 100644
--- a/src/scalar/radix4.rs
+++ b/src/scalar/radix4.rs
@@ -333,21 +333,24 @@ fn prepare_radix4_reversed<T: FftNum>(
             }
         }
     } else {
-        {
-            let i = 0;
-            prepare_radix4(
+        // Row `i` of a reversed input contains every fourth element, counting from the end
+        for i in 0..3 {
+            prepare_radix4_reversed(
                 size / 4,
                 base_len,
-                &input[i * stride..],
+                &input[(3 - i) * stride..],
                 &mut output[i * (size / 4)..],
                 stride * 4,
             );
         }
-        for i in 1..4 {
-            prepare_radix4_reversed(
+
+        // The last row is reversed again, so it's back in its original order
+        {
+            let i = 3;
+            prepare_radix4(
                 size / 4,
                 base_len,
-                &input[i * stride..],
+                &input[(3 - i) * stride..],
                 &mut output[i * (size / 4)..],
                 stride * 4,
             );
-- 
2.43.0

