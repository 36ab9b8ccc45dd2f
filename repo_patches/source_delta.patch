From ad4eb2e207a97795fdb827faca53d2432be73477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 01/33] fix: process the last bytes and gray+alpha images in
 adds_256_u8

---
 src/simd.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index c4ab1ca..71e0a2e 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -19,16 +19,25 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
     // Load val into 256-bit SIMD register
     let mut val_256 = _mm256_set1_epi8(val.abs() as i8);
 
-    // Mask the alpha bit if present
+    // Mask the alpha channel if present. In order to reuse the mask for every chunk, only whole
+    // pixels are processed in each chunk
+    let channels = std::cmp::max(input.info().channels as u32, 1);
+    let mut step = 32;
     if input.info().alpha {
-        let zeroes_256 = _mm256_setzero_si256();
-        let alpha_mask = _mm256_set1_epi32(-2 * 2_i32.pow(30));
-        val_256 = _mm256_blendv_epi8(val_256, zeroes_256, alpha_mask);
+        let mut mask = [0xFF_u8; 32];
+        for (j, byte) in mask.iter_mut().enumerate() {
+            if j as u32 % channels == channels - 1 {
+                *byte = 0;
+            }
+        }
+
+        val_256 = _mm256_and_si256(val_256, _mm256_loadu_si256(mask.as_ptr() as *const _));
+        step = 32 - 32 % channels;
     }
 
-    // Process 32 bytes at a time
+    // Process up to 32 bytes at a time
     let mut i = 0;
-    while (i + 32) <= num_bytes {
+    while step > 0 && (i + 32) <= num_bytes {
         // Load 32-byte chunk into 256-bit SIMD register
         let chunk = _mm256_loadu_si256(input.data().as_ptr().
             offset(i as isize) as *const _);
@@ -43,14 +52,17 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
         // Store 32 bytes in output vector
         _mm256_storeu_si256(data.as_mut_ptr().offset(i as isize) as *mut _, res);
 
-        i += 32;
+        i += step;
     }
 
     // Process the remaining bytes normally
-    if i > num_bytes {
-        for j in (i - 32)..num_bytes {
-            data[j as usize] = (input.data()[j as usize] as i16 + val).clamp(0, 255) as u8;
-        }
+    for j in i..num_bytes {
+        let num = input.data()[j as usize];
+        data[j as usize] = if input.info().alpha && j % channels == channels - 1 {
+            num
+        } else {
+            (num as i16 + val).clamp(0, 255) as u8
+        };
     }
 
     Image::from_vec(input.info().width, input.info().height, input.info().channels,
-- 
2.43.0


From e04eddd79468de078513cc00fb21ceafc8772cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 02/33] fix: keep adds_n_256_u8 inside its buffers and process
 every byte

---
 src/simd.rs | 58 +++++++++++++++++++++--------------------------------
 1 file changed, 23 insertions(+), 35 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index 71e0a2e..0899160 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -80,40 +80,25 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
     let mut val_256 = _mm256_set1_epi8(val.abs() as i8);
     let zeroes_256 = _mm256_setzero_si256();
 
-    // Create masks for the channels we want to ignore
-    let mask = if input.info().alpha {
-        match n {
-            0 => _mm256_set1_epi32(0x80),
-            1 => _mm256_set1_epi32(0x8000),
-            2 => _mm256_set1_epi32(0x800000),
-            3 => _mm256_set1_epi32(-0x80000000),
-            _ => _mm256_setzero_si256()
-        }
-    } else {
-        match n {
-            0 => _mm256_set_epi64x(0x80000080, 0x800000800000,
-                                   -0x7FFFFF7FFFFF8000, 0x80000080000080),
-            1 => _mm256_set_epi64x(0x8000008000, 0x80000080000080,
-                                   0x800000800000, -0x7FFFFF7FFFFF8000),
-            2 => _mm256_set_epi64x(0x800000800000, -0x7FFFFF7FFFFF8000,
-                                   0x80000080000080, 0x800000800000),
-            _ => _mm256_setzero_si256()
+    // Create a mask for the channels we want to ignore
+    let channels = std::cmp::max(input.info().channels as u32, 1);
+    let is_selected = |j: u32| n as u32 >= channels || j % channels == n as u32;
+    let mut mask = [0_u8; 32];
+    for (j, byte) in mask.iter_mut().enumerate() {
+        if is_selected(j as u32) {
+            *byte = 0x80;
         }
-    };
-    val_256 = _mm256_blendv_epi8(zeroes_256, val_256, mask);
-
-    // In order to reuse the mask for every chunk in a 3-channel pixel, we can only process chunks
-    // that are multiples of 8 * 3 = 24 bits. The largest such chunk that fits in 256 bits is
-    // 24 * 10 = 240 bits = 30 bytes.
-    let mut step = 30;
-
-    // 4-channel pixels fit evenly within 32-byte chunks
-    if input.info().alpha {
-        step = 32;
     }
+    val_256 = _mm256_blendv_epi8(zeroes_256, val_256, _mm256_loadu_si256(mask.as_ptr() as *const _));
+
+    // In order to reuse the mask for every chunk, we can only process chunks that are multiples of
+    // the pixel size. For example, the largest such chunk of 3-channel pixels that fits in 256 bits
+    // is 24 * 10 = 240 bits = 30 bytes, while 4-channel pixels fit evenly within 32-byte chunks.
+    let step = 32 - 32 % channels;
 
+    // Each chunk loads and stores 32 bytes
     let mut i = 0;
-    while (i + step) <= num_bytes {
+    while step > 0 && (i + 32) <= num_bytes {
         let chunk = _mm256_loadu_si256(input.data().as_ptr().
             offset(i as isize) as *const _);
 
@@ -128,11 +113,14 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
         i += step;
     }
 
-    if i > num_bytes {
-        for j in ((i - step)..num_bytes).step_by(input.info().channels as usize) {
-            let index = j as usize + n as usize;
-            data[index] = (input.data()[index] as i16 + val).clamp(0, 255) as u8;
-        }
+    // Process the remaining bytes normally
+    for j in i..num_bytes {
+        let num = input.data()[j as usize];
+        data[j as usize] = if is_selected(j) {
+            (num as i16 + val).clamp(0, 255) as u8
+        } else {
+            num
+        };
     }
 
     Image::from_vec(input.info().width, input.info().height, input.info().channels,
-- 
2.43.0


From d922cc8069b42a45b66901585791fb946b9dd402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 03/33] fix: average every pixel exactly in avg_256_u8 and
 avg_alpha_256_u8

---
 src/simd.rs | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index 0899160..581a626 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -180,6 +180,24 @@ pub unsafe fn deinterleave_4_256_u8(input: &Image<u8>, offset: usize) -> (__m256
     (r_256, g_256, b_256, a_256)
 }
 
+/// Computes the average of three 256-bit wide integer vectors, rounded down
+#[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
+#[target_feature(enable = "avx2")]
+unsafe fn avg_3_256(r: __m256i, g: __m256i, b: __m256i) -> __m256i {
+    let zeroes_256 = _mm256_setzero_si256();
+    let third_256 = _mm256_set1_epi16(21846); // Rounded up 2^16 / 3
+
+    let sum_lo = _mm256_add_epi16(_mm256_add_epi16(_mm256_unpacklo_epi8(r, zeroes_256),
+                                                   _mm256_unpacklo_epi8(g, zeroes_256)),
+                                  _mm256_unpacklo_epi8(b, zeroes_256));
+    let sum_hi = _mm256_add_epi16(_mm256_add_epi16(_mm256_unpackhi_epi8(r, zeroes_256),
+                                                   _mm256_unpackhi_epi8(g, zeroes_256)),
+                                  _mm256_unpackhi_epi8(b, zeroes_256));
+
+    _mm256_packus_epi16(_mm256_mulhi_epu16(sum_lo, third_256),
+                        _mm256_mulhi_epu16(sum_hi, third_256))
+}
+
 /// Computes the average of each 3-channel pixel of `input` and returns a grayscale image
 #[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
 #[target_feature(enable = "avx2")]
@@ -193,9 +211,7 @@ pub unsafe fn avg_256_u8(input: &Image<u8>) -> Image<u8> {
     while (i + chunk_size) <= num_bytes {
         let (r, g, b) = deinterleave_3_256_u8(input, i);
 
-        // Approximate average
-        let avg_rg = _mm256_avg_epu8(r, g);
-        let avg_rgb = _mm256_avg_epu8(avg_rg, b);
+        let avg_rgb = avg_3_256(r, g, b);
 
         _mm256_storeu_si256(data.as_mut_ptr().offset((i / channels) as isize)
                                 as *mut _, avg_rgb);
@@ -203,11 +219,10 @@ pub unsafe fn avg_256_u8(input: &Image<u8>) -> Image<u8> {
         i += chunk_size;
     }
 
-    if i > num_bytes {
-        for j in ((i - chunk_size)..num_bytes).step_by(3) {
-            let sum = (input.data()[i] + input.data()[i + 1] + input.data()[i + 2]) as f32;
-            data[j / channels] = (sum / 3.0).round() as u8;
-        }
+    // Process the remaining pixels normally
+    for j in (i..num_bytes).step_by(channels) {
+        let sum = input.data()[j] as u16 + input.data()[j + 1] as u16 + input.data()[j + 2] as u16;
+        data[j / channels] = (sum / 3) as u8;
     }
 
     Image::from_vec(input.info().width, input.info().height, 1,
@@ -228,9 +243,7 @@ pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
     while (i + chunk_size) <= num_bytes {
         let (r, g, b, a) = deinterleave_4_256_u8(input, i);
 
-        // Approximate average
-        let avg_rg = _mm256_avg_epu8(r, g);
-        let avg_rgb = _mm256_avg_epu8(avg_rg, b);
+        let avg_rgb = avg_3_256(r, g, b);
 
         // Interleave the alpha and grayscale channels
         let unpacked_lo = _mm256_unpacklo_epi8(avg_rgb, a);
@@ -247,12 +260,11 @@ pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
         i += chunk_size;
     }
 
-    if i > num_bytes {
-        for j in ((i - chunk_size)..num_bytes).step_by(channels) {
-            let sum = (input.data()[i] + input.data()[i + 1] + input.data()[i + 2]) as f32;
-            data[j / 2] = (sum / 3.0).round() as u8;
-            data[j / 2 + 1] = input.data()[i + 3];
-        }
+    // Process the remaining pixels normally
+    for j in (i..num_bytes).step_by(channels) {
+        let sum = input.data()[j] as u16 + input.data()[j + 1] as u16 + input.data()[j + 2] as u16;
+        data[j / 2] = (sum / 3) as u8;
+        data[j / 2 + 1] = input.data()[j + 3];
     }
 
     Image::from_vec(input.info().width, input.info().height, 2,
-- 
2.43.0


From 9a9ab6f6cc210098af1d39b45846cf515d4e2a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 04/33] fix: use the vector mean only for images with three
 color channels

---
 src/colorspace.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colorspace.rs b/src/colorspace.rs
index e58c3e3..ad1cbe9 100644
--- a/src/colorspace.rs
+++ b/src/colorspace.rs
@@ -8,13 +8,13 @@ use crate::util;
 use crate::util::constants::{GAMMA, SRGB_TO_XYZ_MAT, XYZ_TO_SRGB_MAT};
 
 #[cfg(feature = "simd")]
-use crate::simd;
+use crate::{image::BaseImage, simd};
 
 /// Converts a u8 image from RGB to Grayscale
 pub fn rgb_to_grayscale(input: &Image<u8>) -> Image<u8> {
     #[cfg(feature = "simd")]
     {
-        if is_x86_feature_detected!("avx2") {
+        if is_x86_feature_detected!("avx2") && input.info().channels_non_alpha() == 3 {
             simd::avg_checked_256_u8(input)
         } else {
             rgb_to_grayscale_norm(input)
-- 
2.43.0


From 72a7b5b23f2c096882018b760172cbe95b66258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 05/33] fix: accept crop rectangles that touch the right or
 bottom edge

---
 src/transform.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 3947459..c73b576 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -13,12 +13,12 @@ use crate::util;
 /// and height `height`
 #[cfg(not(feature = "rayon"))]
 pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32) -> ImgProcResult<Image<T>> {
-    if (x + width) >= input.info().width {
+    if x.saturating_add(width) > input.info().width {
         return Err(ImgProcError::InvalidArgError(format!("invalid width: input width is {} \
-            but x + width is {}", input.info().width, (x + width))));
-    } else if (y + height) >= input.info().height {
+            but x + width is {}", input.info().width, x.saturating_add(width))));
+    } else if y.saturating_add(height) > input.info().height {
         return Err(ImgProcError::InvalidArgError(format!("invalid height: input height is {} \
-            but y + height is {}", input.info().height, (y + height))));
+            but y + height is {}", input.info().height, y.saturating_add(height))));
     }
 
     let mut output = Image::blank(ImageInfo::new(width, height,
@@ -37,12 +37,12 @@ pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32
 /// and height `height`
 #[cfg(feature = "rayon")]
 pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32) -> ImgProcResult<Image<T>> {
-    if (x + width) >= input.info().width {
+    if x.saturating_add(width) > input.info().width {
         return Err(ImgProcError::InvalidArgError(format!("invalid width: input width is {} \
-            but x + width is {}", input.info().width, (x + width))));
-    } else if (y + height) >= input.info().height {
+            but x + width is {}", input.info().width, x.saturating_add(width))));
+    } else if y.saturating_add(height) > input.info().height {
         return Err(ImgProcError::InvalidArgError(format!("invalid height: input height is {} \
-            but y + height is {}", input.info().height, (y + height))));
+            but y + height is {}", input.info().height, y.saturating_add(height))));
     }
 
     let size = width * height;
-- 
2.43.0


From ab273d08cc1e3ffc2a392149c8d042ab1a3157df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 06/33] fix: overflow of far-away positions in overlay and
 superimpose

---
 src/transform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index c73b576..76ea572 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -65,8 +65,8 @@ pub fn superimpose(back: &Image<f32>, front: &Image<f32>, x: u32, y: u32, alpha:
     error::check_in_range(0.0, 1.0, alpha, "alpha")?;
 
     let mut output = back.clone();
-    let width = std::cmp::min(x + front.info().width, back.info().width);
-    let height = std::cmp::min(y + front.info().height, back.info().height);
+    let width = std::cmp::min(x.saturating_add(front.info().width), back.info().width);
+    let height = std::cmp::min(y.saturating_add(front.info().height), back.info().height);
 
     for j in y..height {
         for i in x..width {
@@ -90,8 +90,8 @@ pub fn overlay<T: Number>(back: &Image<T>, front: &Image<T>, x: u32, y: u32) ->
     error::check_equal(back.info().channels, front.info().channels, "image channels")?;
 
     let mut output = back.clone();
-    let width = std::cmp::min(x + front.info().width, back.info().width);
-    let height = std::cmp::min(y + front.info().height, back.info().height);
+    let width = std::cmp::min(x.saturating_add(front.info().width), back.info().width);
+    let height = std::cmp::min(y.saturating_add(front.info().height), back.info().height);
 
     for j in y..height {
         for i in x..width {
-- 
2.43.0


From be2823f7a4f83a1a04734b3f6f51a9fb06e61320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 07/33] fix: order of the range check arguments in superimpose

---
 src/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index 76ea572..aaa99fe 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -62,7 +62,7 @@ pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32
 /// pixel values of `front`
 pub fn superimpose(back: &Image<f32>, front: &Image<f32>, x: u32, y: u32, alpha: f32) -> ImgProcResult<Image<f32>> {
     error::check_equal(back.info().channels, front.info().channels, "image channels")?;
-    error::check_in_range(0.0, 1.0, alpha, "alpha")?;
+    error::check_in_range(alpha, 0.0, 1.0, "alpha")?;
 
     let mut output = back.clone();
     let width = std::cmp::min(x.saturating_add(front.info().width), back.info().width);
-- 
2.43.0


From b8e81febb3933bb9980b5984322f4a1ce7b76d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 08/33] fix: weights of the bilinear interpolation

---
 src/transform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index aaa99fe..0cbdd0f 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -450,10 +450,10 @@ fn interpolate_bilinear(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32
 
     let mut p_out = Vec::with_capacity(input.info().channels as usize);
     for c in 0..(input.info().channels as usize) {
-        p_out.push(p1[c] * x_weight * y_weight
-            + p2[c] * (1.0 - x_weight) * y_weight
-            + p3[c] * x_weight * (1.0 - y_weight)
-            + p4[c] * (1.0 - x_weight) * (1.0 - y_weight));
+        p_out.push(p1[c] * (1.0 - x_weight) * (1.0 - y_weight)
+            + p2[c] * x_weight * (1.0 - y_weight)
+            + p3[c] * (1.0 - x_weight) * y_weight
+            + p4[c] * x_weight * y_weight);
     }
 
     p_out
-- 
2.43.0


From 3db5ab3d2e479de44f0858b421fff9fd3509da23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 09/33] fix: out of bounds source pixels in nearest neighbor
 scaling

---
 src/transform.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 0cbdd0f..049505b 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -427,8 +427,8 @@ fn scale_lanczos_resampling(input: &Image<f32>, info: &ImageInfo, x_factor: f32,
 }
 
 fn interpolate_nearest_neighbor(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32, y: u32) -> &[f32] {
-    let x_in = (((x + 1) as f32 / x_factor).ceil() - 1.0) as u32;
-    let y_in = (((y + 1) as f32 / y_factor).ceil() - 1.0) as u32;
+    let x_in = std::cmp::min((((x + 1) as f32 / x_factor).ceil() - 1.0) as u32, input.info().width - 1);
+    let y_in = std::cmp::min((((y + 1) as f32 / y_factor).ceil() - 1.0) as u32, input.info().height - 1);
 
     input.get_pixel(x_in, y_in)
 }
-- 
2.43.0


From a8f1aa170c66f0bf3c3f7d743f36c35e925c441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 10/33] fix: rotate the image about its center without losing
 or shifting pixels

---
 src/transform.rs | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 049505b..4a6de7a 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -212,45 +212,44 @@ pub fn rotate(input: &Image<f32>, degrees: f32) -> ImgProcResult<Image<f32>> {
     let (sin, cos) = degrees.to_radians().sin_cos();
 
     // Center coordinates
-    let x = w_in / 2;
-    let y = h_in / 2;
+    let x = w_in as f32 / 2.0;
+    let y = h_in as f32 / 2.0;
 
     let mat = [cos, -sin, sin, cos];
 
     // Compute dimensions of output image
-    let coords1 = util::vector_mul(&mat, &[-(x as f32), y as f32])?;
-    let coords2 = util::vector_mul(&mat, &[(w_in - x) as f32, y as f32])?;
-    let coords3 = util::vector_mul(&mat, &[-(x as f32), (y as f32) - (h_in as f32)])?;
-    let coords4 = util::vector_mul(&mat, &[(w_in - x) as f32, (y as f32) - (h_in as f32)])?;
+    let coords1 = util::vector_mul(&mat, &[-x, y])?;
+    let coords2 = util::vector_mul(&mat, &[x, y])?;
+    let coords3 = util::vector_mul(&mat, &[-x, -y])?;
+    let coords4 = util::vector_mul(&mat, &[x, -y])?;
 
     let x_max = util::max_4(coords1[0], coords2[0], coords3[0], coords4[0]);
     let x_min = util::min_4(coords1[0], coords2[0], coords3[0], coords4[0]);
     let y_max = util::max_4(coords1[1], coords2[1], coords3[1], coords4[1]);
     let y_min = util::min_4(coords1[1], coords2[1], coords3[1], coords4[1]);
 
-    let w_out = (x_max - x_min) as u32;
-    let h_out = (y_max - y_min) as u32;
+    let w_out = (x_max - x_min).round() as u32;
+    let h_out = (y_max - y_min).round() as u32;
 
     let mut output = Image::blank(ImageInfo::new(w_out, h_out,
                                                  input.info().channels, input.info().alpha));
     let mut coords = Vec::with_capacity(input.info().channels as usize);
 
-    for j in 0..h_in {
-        for i in 0..w_in {
-            let x1 = (i as f32) - (x as f32);
-            let y1 = (y as f32) - (j as f32);
+    // Rotate the center of each output pixel back to find the input pixel it comes from
+    let mat_inv = [cos, sin, -sin, cos];
 
-            util::vector_mul_mut(&mat, &[x1, y1], &mut coords)?;
+    for j in 0..h_out {
+        for i in 0..w_out {
+            let x1 = (i as f32) + 0.5 - (w_out as f32) / 2.0;
+            let y1 = (h_out as f32) / 2.0 - (j as f32) - 0.5;
 
-            coords[0] += x_max - 1.0;
-            coords[1] = y_max - coords[1] - 1.0;
+            util::vector_mul_mut(&mat_inv, &[x1, y1], &mut coords)?;
 
-            output.set_pixel(coords[0] as u32, coords[1] as u32,
-                             input.get_pixel(i, j));
+            coords[0] += x;
+            coords[1] = y - coords[1];
 
-            // Cover up "holes" left by rotation algorithm
-            if coords[0] >= 1.0 {
-                output.set_pixel(coords[0] as u32 - 1, coords[1] as u32, input.get_pixel(i, j));
+            if coords[0] >= 0.0 && coords[0] < w_in as f32 && coords[1] >= 0.0 && coords[1] < h_in as f32 {
+                output.set_pixel(i, j, input.get_pixel(coords[0] as u32, coords[1] as u32));
             }
         }
     }
-- 
2.43.0


From 027113f8cadb34bfdaa7b09a876816f0080a3c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 11/33] fix: pad neighborhoods with the nearest edge pixel

---
 src/image/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index aa14c82..214805b 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -319,7 +319,7 @@ impl<T: Number> Image<T> {
 
             for i in 0..size {
                 let mut curr_y = start_y + (i as i32);
-                if curr_y < 0 || curr_y >= self.info.height as i32 { curr_y = y as i32 };
+                curr_y = curr_y.clamp(0, self.info.height as i32 - 1);
 
                 data.push(self.get_pixel(x, curr_y as u32));
             }
@@ -330,7 +330,7 @@ impl<T: Number> Image<T> {
 
             for i in 0..size {
                 let mut curr_x = start_x + (i as i32);
-                if curr_x < 0 || curr_x >= self.info.width as i32 { curr_x = x as i32 };
+                curr_x = curr_x.clamp(0, self.info.width as i32 - 1);
 
                 data.push(self.get_pixel(curr_x as u32, y));
             }
@@ -357,8 +357,8 @@ impl<T: Number> Image<T> {
                 let mut curr_x = start_x + (j as i32);
                 let mut curr_y = start_y + (i as i32);
 
-                if curr_x < 0 || curr_x >= self.info.width as i32 { curr_x = x as i32 };
-                if curr_y < 0 || curr_y >= self.info.height as i32 { curr_y = y as i32 };
+                curr_x = curr_x.clamp(0, self.info.width as i32 - 1);
+                curr_y = curr_y.clamp(0, self.info.height as i32 - 1);
 
                 data.push(self.get_pixel(curr_x as u32, curr_y as u32));
             }
-- 
2.43.0


From 9aee5180ae2ce3469328af6129f67273f1b490ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 12/33] fix: order of the pixels in get_subimage

---
 src/image/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index 214805b..5ef8d90 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -293,8 +293,8 @@ impl<T: Number> Image<T> {
 
         let mut data = Vec::new();
 
-        for i in x..(x + width) {
-            for j in y..(y + height) {
+        for j in y..(y + height) {
+            for i in x..(x + width) {
                 data.push(self.get_pixel(i, j));
             }
         }
-- 
2.43.0


From 5692de91aa47b34406157f735a551ffdc18dd4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 13/33] fix: remaining length of the pixel iterator and
 iteration over empty images

---
 src/image/pixel_iter.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/image/pixel_iter.rs b/src/image/pixel_iter.rs
index 798e9af..d2752fa 100644
--- a/src/image/pixel_iter.rs
+++ b/src/image/pixel_iter.rs
@@ -36,12 +36,18 @@ pub struct PixelIter<'a, T: Number> {
 
 impl<'a, T: Number> PixelIter<'a, T> {
     pub fn new(image: &'a Image<T>) -> Self {
+        // An image with no rows or no columns has no pixels to visit
+        let (x_max, y_max) = match image.info().size() {
+            0 => (0, 0),
+            _ => image.info().wh(),
+        };
+
         PixelIter {
             image,
             x: 0,
             y: 0,
-            x_max: image.info().width - 1,
-            y_max: image.info().height - 1,
+            x_max,
+            y_max,
         }
     }
 }
@@ -50,8 +56,8 @@ impl<'a, T: Number> Iterator for PixelIter<'a, T> {
     type Item = (u32, u32, &'a [T]);
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.x > self.x_max {
-            if self.y >= self.y_max {
+        if self.x >= self.x_max {
+            if self.y + 1 >= self.y_max {
                 return None;
             } else {
                 self.x = 0;
@@ -67,7 +73,7 @@ impl<'a, T: Number> Iterator for PixelIter<'a, T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = ((self.x_max + 1) * (self.y_max + 1)) as usize;
+        let size = (self.x_max * self.y_max - (self.y * self.x_max + self.x)) as usize;
         (size, Some(size))
     }
 }
-- 
2.43.0


From 64296fdf392cd706ed744b4c77faa2434ea3942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 14/33] fix: size and weights of the box filter

---
 src/filter/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index c07eb92..85e1976 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -132,8 +132,7 @@ pub fn linear_filter(input: &Image<f32>, kernel: &[f32]) -> ImgProcResult<Image<
 pub fn box_filter(input: &Image<f32>, size: u32) -> ImgProcResult<Image<f32>> {
     error::check_odd(size, "size")?;
 
-    let len = (size * size) as usize;
-    let kernel = vec![1.0 / ((size * size) as f32); len];
+    let kernel = vec![1.0 / (size as f32); size as usize];
 
     Ok(separable_filter(input, &kernel, &kernel)?)
 }
-- 
2.43.0


From b6cc270c780606498049c550b2831ed2b137aa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 15/33] fix: normalize the Gaussian kernel

---
 src/util/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index f2edec9..b968582 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -83,6 +83,12 @@ pub fn generate_gaussian_kernel(size: u32, sigma: f32) -> ImgProcResult<Vec<f32>
         }
     }
 
+    // Normalize the truncated kernel so that it sums to 1
+    let sum: f32 = filter.iter().sum();
+    for num in filter.iter_mut() {
+        *num /= sum;
+    }
+
     Ok(filter)
 }
 
-- 
2.43.0


From f7cdf2ae3139b7a3e0c13f846ac323acbb46ba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 16/33] fix: sign change of the Laplacian of Gaussian kernel

---
 src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index b968582..c96ea3a 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -103,7 +103,7 @@ pub fn generate_log_kernel(size: u32, sigma: f32) -> ImgProcResult<Vec<f32>> {
         for j in 0..(size as i32) {
             if i <= j {
                 let exp = -(((i - k) * (i - k) + (j - k) * (j - k)) as f32) / (2.0 * sigma * sigma);
-                let num = (-1.0 / (PI * sigma.powf(4.0))) * (1.0 - exp) * (E.powf(exp));
+                let num = (-1.0 / (PI * sigma.powf(4.0))) * (1.0 + exp) * (E.powf(exp));
                 filter[(i * size as i32 + j) as usize] = num;
 
                 if i != j {
-- 
2.43.0


From 8a08ecc09682cefd5cdfafaf7ea513fa9f9bf5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 17/33] fix: derivative masks of grayscale images with alpha

---
 src/filter/edge.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter/edge.rs b/src/filter/edge.rs
index 07d83e0..4dbbc53 100644
--- a/src/filter/edge.rs
+++ b/src/filter/edge.rs
@@ -16,8 +16,9 @@ pub fn derivative_mask(input: &Image<f32>, vert_kernel: &[f32], horz_kernel: &[f
 
     let mut output = Image::blank(input.info());
 
-    for i in 0..(output.info().full_size() as usize) {
-        output.set_pixel_indexed(i, &[(img_x[i][0].powf(2.0) + img_y[i][0].powf(2.0)).sqrt()]);
+    for i in 0..(output.info().size() as usize) {
+        output[i].copy_from_slice(&input[i]);
+        output[i][0] = (img_x[i][0].powf(2.0) + img_y[i][0].powf(2.0)).sqrt();
     }
 
     Ok(output)
-- 
2.43.0


From 3c878f1d1246d3a2c3f56153fef025b1e29e735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 18/33] fix: panics and endless loops when separating kernels

---
 src/util/math.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/util/math.rs b/src/util/math.rs
index b4ee90b..c223b28 100644
--- a/src/util/math.rs
+++ b/src/util/math.rs
@@ -3,7 +3,6 @@ use crate::image::{Number, SubImage, BaseImage};
 use crate::error::ImgProcResult;
 
 use std::f32::consts::{PI, E};
-use rulinalg::matrix::{Matrix, BaseMatrix};
 
 /// Returns the result of the multiplication of a square matrix by a vector
 pub fn vector_mul<T: Number>(mat: &[T], input: &[T]) -> ImgProcResult<Vec<T>> {
@@ -47,24 +46,39 @@ pub fn vector_mul_mut<T: Number>(mat: &[T], input: &[T], output: &mut Vec<T>) ->
 /// If `kernel` is separable, returns the (vertical kernel, horizontal kernel); otherwise returns None
 pub fn separate_kernel(kernel: &[f32]) -> Option<(Vec<f32>, Vec<f32>)> {
     let size = (kernel.len() as f32).sqrt() as usize;
-    let kernel_mat = Matrix::new(size, size, kernel);
-    let size = kernel_mat.cols();
-    let (s, u, v) = kernel_mat.svd().unwrap();
+    if size * size != kernel.len() {
+        return None;
+    }
+
+    // A separable kernel is a multiple of the outer product of its column and its row through any
+    // nonzero entry, so use the entry with the largest magnitude
+    let mut pivot = 0;
+    for i in 0..kernel.len() {
+        if kernel[i].abs() > kernel[pivot].abs() {
+            pivot = i;
+        }
+    }
+
+    let max = kernel.get(pivot)?.abs();
+    if max == 0.0 || !max.is_finite() {
+        return None;
+    }
+
+    let (row, col) = (pivot / size, pivot % size);
+    let scalar = max.sqrt();
+    let vertical_kernel: Vec<f32> = (0..size).map(|i| kernel[i * size + col] / scalar).collect();
+    let horizontal_kernel: Vec<f32> = (0..size).map(|j| kernel[row * size + j] / (kernel[pivot] / scalar)).collect();
 
     // Check if kernel is separable
-    if s.data()[0] != 0.0 {
-        for i in 1..size {
-            if s.data()[i * size + i] != 0.0 {
+    for i in 0..size {
+        for j in 0..size {
+            let diff = vertical_kernel[i] * horizontal_kernel[j] - kernel[i * size + j];
+            if !(diff.abs() <= 8.0 * f32::EPSILON * max) {
                 return None;
             }
         }
-    } else {
-        return None;
     }
 
-    let scalar = s.data()[0].sqrt();
-    let vertical_kernel = (u.col(0).as_slice().into_matrix() * scalar).into_vec();
-    let horizontal_kernel = (v.transpose().row(0).as_slice().into_matrix() * scalar).into_vec();
     Some((vertical_kernel, horizontal_kernel))
 }
 
-- 
2.43.0


From 628b5c623c606a755af970f317293656eb6e6ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 19/33] fix: center weight of the spatial matrix and even
 window sizes in the bilateral filter

---
 src/filter/bilateral.rs | 4 ++--
 src/util/mod.rs         | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/filter/bilateral.rs b/src/filter/bilateral.rs
index 9e1639a..883db24 100644
--- a/src/filter/bilateral.rs
+++ b/src/filter/bilateral.rs
@@ -14,7 +14,7 @@ pub fn bilateral_filter(input: &Image<u8>, range: f32, spatial: f32, algorithm:
     error::check_non_neg(spatial, "spatial")?;
 
     let (width, height, channels) = input.info().whc();
-    let size = ((spatial * 4.0) + 1.0) as u32;
+    let size = 2 * ((spatial * 2.0) as u32) + 1;
     let spatial_mat = util::generate_spatial_mat(size, spatial)?;
 
     let lab = colorspace::srgb_to_lab_f32(&input, &White::D65);
@@ -43,7 +43,7 @@ pub fn bilateral_filter(input: &Image<u8>, range: f32, spatial: f32, algorithm:
     error::check_non_neg(spatial, "spatial")?;
 
     let (width, height, channels, alpha) = input.info().whca();
-    let size = ((spatial * 4.0) + 1.0) as u32;
+    let size = 2 * ((spatial * 2.0) as u32) + 1;
     let spatial_mat = util::generate_spatial_mat(size, spatial)?;
 
     let lab = colorspace::srgb_to_lab_f32(&input, &White::D65);
diff --git a/src/util/mod.rs b/src/util/mod.rs
index c96ea3a..317d722 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -118,12 +118,14 @@ pub fn generate_log_kernel(size: u32, sigma: f32) -> ImgProcResult<Vec<f32>> {
 
 /// Generates a matrix of distances relative to the center of the matrix
 pub fn generate_spatial_mat(size: u32, spatial: f32) -> ImgProcResult<Vec<f32>> {
+    error::check_odd(size, "size")?;
+
     let center = size / 2;
     let mut mat = vec![0.0; (size * size) as usize];
 
     for y in 0..(center + 1) {
         for x in 0..(center + 1) {
-            if mat[(y * size + x) as usize] == 0.0 && !(x == center && y == center) {
+            if mat[(y * size + x) as usize] == 0.0 {
                 let dist = math::distance(center, center, x, y);
                 let g = math::gaussian_fn(dist, spatial)?;
                 mat[(y * size + x) as usize] = g;
-- 
2.43.0


From b57afecfc08c9ca9fc0f72c08ad50bef5e2c57d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 20/33] fix: median when half of the window lies below the
 previous median

---
 src/filter/median.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 2054ab4..fb6d762 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -304,11 +304,8 @@ fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_o
                                                         // the previous median
 
             match sum.cmp(&center) {
-                Ordering::Equal => { // The current median is equal to the previous median
-                    p_out.push(pivot);
-                },
-                Ordering::Less => { // The current median is greater than the previous median,
-                                    // so the histogram should be scanned upwards
+                Ordering::Less => { // The current median is greater than or equal to the previous
+                                    // median, so the histogram should be scanned upwards
                     for key in pivot..=255 {
                         let add = hist.data().get_count(key as usize, i);
 
@@ -321,7 +318,7 @@ fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_o
                         sum += add;
                     }
                 },
-                Ordering::Greater => { // The current median is less than the previous median, so the histogram
+                Ordering::Equal | Ordering::Greater => { // The current median is less than the previous median, so the histogram
                                        // should be scanned downwards
                     for key in (0..pivot).rev() {
                         sum -= hist.data().get_count(key as usize, i);
-- 
2.43.0


From c1d0d835fe3eb785e3f13f4f0f1b617a9e9cf0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 21/33] fix: last column of the median and alpha-trimmed mean
 filters

---
 src/filter/median.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index fb6d762..4d2f09a 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -271,6 +271,11 @@ fn init_cols_med(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Vec
 
     // Compute first median values
     for i in 0..n_cols {
+        // The last set of columns can extend past the right edge of the image
+        if x + i as u32 >= output.info().width {
+            break;
+        }
+
         p_out.clear();
         for hist in histograms.iter_mut() {
             let mut sum = 0;
@@ -288,8 +293,7 @@ fn init_cols_med(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Vec
             }
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, 0, &p_out);
+        output.set_pixel(x + i as u32, 0, &p_out);
 
         set_pivots_med(histograms, &p_out, i);
     }
@@ -297,6 +301,11 @@ fn init_cols_med(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Vec
 
 fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_out: &mut Vec<u8>, center: i32, n_cols: usize, x: u32, y: u32) {
     for i in 0..n_cols {
+        // The last set of columns can extend past the right edge of the image
+        if x + i as u32 >= output.info().width {
+            break;
+        }
+
         p_out.clear();
         for hist in histograms.iter_mut() {
             let pivot = hist.pivots()[i]; // Get the previous median
@@ -333,8 +342,7 @@ fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_o
             }
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, y, &p_out);
+        output.set_pixel(x + i as u32, y, &p_out);
 
         set_pivots_med(histograms, &p_out, i);
     }
@@ -616,6 +624,11 @@ fn init_cols_mean(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Ve
     let trim = (alpha as usize) / 2;
     let upper_trim = (size * size) as usize - trim;
     for i in 0..n_cols {
+        // The last set of columns can extend past the right edge of the image
+        if x + i as u32 >= output.info().width {
+            break;
+        }
+
         p_out.clear();
         for hist in histograms.iter_mut() {
             let mut count = 0;
@@ -648,20 +661,23 @@ fn init_cols_mean(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Ve
             p_out.push(hist.get_mean(i));
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, 0, &p_out);
+        output.set_pixel(x + i as u32, 0, &p_out);
     }
 }
 
 fn process_row_mean(output: &mut Image<u8>, histograms: &mut Vec<MeanHist>, p_out: &mut Vec<u8>, n_cols: usize, x: u32, y: u32) {
     for i in 0..n_cols {
+        // The last set of columns can extend past the right edge of the image
+        if x + i as u32 >= output.info().width {
+            break;
+        }
+
         p_out.clear();
         for hist in histograms.iter_mut() {
             p_out.push(hist.get_mean(i));
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, y, &p_out);
+        output.set_pixel(x + i as u32, y, &p_out);
     }
 }
 
-- 
2.43.0


From fecc4a9e44ef17b231d9ba0d204dd49fcd4ae712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 22/33] fix: trimmed statistics of the alpha-trimmed mean
 filter

---
 src/filter/median.rs | 252 +++++--------------------------------------
 1 file changed, 28 insertions(+), 224 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 4d2f09a..6251ef4 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -2,7 +2,7 @@ use crate::error;
 use crate::error::{ImgProcResult, ImgProcError};
 use crate::image::{Image, BaseImage};
 
-use std::cmp::{Ordering, Reverse};
+use std::cmp::Ordering;
 
 /// Applies a median filter, where each output pixel is the median of the pixels in a
 /// `(2 * radius + 1) x (2 * radius + 1)` kernel in the input image. Based on Ben Weiss' partial
@@ -373,197 +373,47 @@ fn set_pivots_med(histograms: &mut Vec<MedianHist>, pivots: &[u8], index: usize)
 #[derive(Debug, Clone)]
 struct MeanHist {
     data: PartialHistograms,
-    sums: Vec<i32>, // The sum of all the participating pixel values in the kernel for each pixel
-    lower: Vec<Vec<u8>>, // Vectors of all the lowest discarded pixel values in the kernel
-                         // for each pixel
-    upper: Vec<Vec<u8>>, // Vectors of all the highest discarded pixel values in the kernel for
-                         // each pixel
-    trim: usize, // The number of pixel values discarded at the low and high ends of each kernel
-                 // (equal to half of alpha)
-    len: f32, // The number of participating pixel values in each kernel
+    trim: i32, // The number of pixel values discarded at the low and high ends of each kernel
+               // (equal to half of alpha)
+    len: i32, // The number of participating pixel values in each kernel
 }
 
 impl MeanHist {
     fn new(radius: usize, n_cols: usize, alpha: u32) -> Self {
         let size = 2 * radius + 1;
-        let len = ((size * size) - alpha as usize) as f32;
 
         MeanHist {
             data: PartialHistograms::new(radius, n_cols),
-            sums: Vec::with_capacity(n_cols),
-            lower: Vec::with_capacity(n_cols),
-            upper: Vec::with_capacity(n_cols),
-            trim: (alpha as usize) / 2,
-            len,
+            trim: (alpha / 2) as i32,
+            len: (size * size) as i32 - alpha as i32,
         }
     }
 
-    fn data(&self) -> &PartialHistograms {
-        &self.data
-    }
-
-    fn init(&mut self) {
-        self.sums = vec![0; self.data.n_cols];
-        self.lower = vec![Vec::with_capacity(self.trim); self.data.n_cols];
-        self.upper = vec![Vec::with_capacity(self.trim); self.data.n_cols];
-    }
-
-    // By some miracle, this seems to work!
     fn update(&mut self, p_in: &[&[u8]], channel_index: usize, add: bool) {
-        if !self.sums.is_empty() {
-            if add {
-                for n in 0..self.data.n_cols {
-                    for i in n..(n + self.data.size) {
-                        let val = p_in[i][channel_index];
-                        let lower = self.lower(n);
-                        let upper = self.upper(n);
-
-                        if val < lower {
-                            self.lower[n].remove(self.trim -  1);
-                            self.sums[n] += lower as i32;
-
-                            let pos = self.lower[n].binary_search(&val).unwrap_or_else(|e| e);
-                            self.lower[n].insert(pos, val);
-                        } else if val > upper {
-                            self.upper[n].remove(self.trim - 1);
-                            self.sums[n] += upper as i32;
-
-                            let pos = self.lower[n].binary_search_by_key(&Reverse(&val), Reverse).unwrap_or_else(|e| e);
-                            self.upper[n].insert(pos, val);
-                        } else {
-                            self.sums[n] += val as i32;
-                        }
-                    }
-                }
-                self.data.update(p_in, channel_index, add);
-            } else {
-                self.data.update(p_in, channel_index, add);
-                for n in 0..self.data.n_cols {
-                    for i in n..(n + self.data.size) {
-                        let val = p_in[i][channel_index];
-                        let lower = self.lower(n);
-                        let upper = self.upper(n);
-
-                        let mut lower_count = self.data.get_count(lower as usize, n);
-                        let mut upper_count = self.data.get_count(upper as usize, n);
-
-                        for j in i..(n + self.data.size) {
-                            if p_in[j][channel_index] == lower {
-                                lower_count += 1;
-                            } else if p_in[j][channel_index] == upper {
-                                upper_count += 1;
-                            }
-                        }
-
-                        for j in self.lower[n].iter().rev() {
-                            if *j == lower {
-                                lower_count -= 1;
-                            } else {
-                                break;
-                            }
-                        }
-
-                        for j in self.upper[n].iter().rev() {
-                            if *j == upper {
-                                upper_count -= 1;
-                            } else {
-                                break;
-                            }
-                        }
-
-                        if val == lower && lower_count == 0 {
-                            self.lower[n].remove(self.trim - 1);
-                            self.get_next_lower(n, lower_count, lower);
-                        } else if val < lower {
-                            let res = self.lower[n].binary_search(&val);
-
-                            match res {
-                                Ok(pos) => {
-                                    self.lower[n].remove(pos);
-                                    self.get_next_lower(n, lower_count, lower);
-                                },
-                                Err(_) => {
-                                    self.sums[n] -= val as i32;
-                                }
-                            }
-                        } else if val == upper && upper_count == 0 {
-                            self.upper[n].remove(self.trim - 1);
-                            self.get_next_upper(n, upper_count, upper);
-                        } else if val > upper {
-                            let res = self.lower[n].binary_search_by_key(&Reverse(&val), Reverse);
-
-                            match res {
-                                Ok(pos) => {
-                                    self.upper[n].remove(pos);
-                                    self.get_next_upper(n, upper_count, upper);
-                                },
-                                Err(_) => {
-                                    self.sums[n] -= val as i32;
-                                }
-                            }
-                        } else {
-                            self.sums[n] -= val as i32;
-                        }
-                    }
-                }
-            }
-        } else {
-            self.data.update(p_in, channel_index, add);
-        }
-    }
-
-    fn set_sum(&mut self, sum: i32, index: usize) {
-        self.sums[index] = sum;
-    }
-
-    fn set_upper(&mut self, vals: Vec<u8>, index: usize) {
-        self.upper[index] = vals;
-    }
-
-    fn set_lower(&mut self, vals: Vec<u8>, index: usize) {
-        self.lower[index] = vals;
-    }
-
-    fn upper(&self, index: usize) -> u8 {
-        self.upper[index][self.trim-1]
-    }
-
-    fn lower(&self, index: usize) -> u8 {
-        self.lower[index][self.trim-1]
+        self.data.update(p_in, channel_index, add);
     }
 
+    // Returns the mean of the participating pixel values in the kernel for the pixel at the given
+    // index
     fn get_mean(&self, index: usize) -> u8 {
-        ((self.sums[index] as f32) / self.len).round() as u8
-    }
-
-    fn get_next_lower(&mut self, n: usize, lower_count: i32, lower: u8) {
-        if lower_count > 0 {
-            self.lower[n].push(lower);
-            self.sums[n] -= lower as i32;
-        } else {
-            for key in (lower + 1)..=255 {
-                if self.data.get_count(key as usize, n) > 0 {
-                    self.lower[n].push(key);
-                    self.sums[n] -= key as i32;
-                    break;
-                }
+        let mut count = 0;
+        let mut sum = 0;
+
+        for key in 0..256 {
+            // If all the pixels in the kernel were sorted, the pixels with a value of key would be
+            // located at the indices from count to (count + add - 1)
+            let add = self.data.get_count(key, index);
+            let start = count.max(self.trim);
+            let end = (count + add).min(self.trim + self.len);
+
+            if end > start {
+                sum += (end - start) * key as i32;
             }
-        }
-    }
 
-    fn get_next_upper(&mut self, n: usize, upper_count: i32, upper: u8) {
-        if upper_count > 0 {
-            self.upper[n].push(upper);
-            self.sums[n] -= upper as i32;
-        } else {
-            for key in (0..upper).rev() {
-                if self.data.get_count(key as usize, n) > 0 {
-                    self.upper[n].push(key);
-                    self.sums[n] -= key as i32;
-                    break;
-                }
-            }
+            count += add;
         }
+
+        ((sum as f32) / (self.len as f32)).round() as u8
     }
 }
 
@@ -573,7 +423,7 @@ fn process_cols_mean(input: &Image<u8>, output: &mut Image<u8>, radius: u32, alp
     let mut p_out = Vec::with_capacity(channels as usize);
 
     // Initialize histogram and process first row
-    init_cols_mean(input, output, &mut histograms, &mut p_out, radius, alpha, n_cols, x);
+    init_cols_mean(input, output, &mut histograms, &mut p_out, radius, n_cols, x);
 
     // Update histogram and process remaining rows
     let mut row_in = Vec::with_capacity(n_cols);
@@ -600,9 +450,8 @@ fn process_cols_mean(input: &Image<u8>, output: &mut Image<u8>, radius: u32, alp
 }
 
 fn init_cols_mean(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Vec<MeanHist>,
-                  p_out: &mut Vec<u8>, radius: u32, alpha: u32, n_cols: usize, x: u32) {
+                  p_out: &mut Vec<u8>, radius: u32, n_cols: usize, x: u32) {
     let (width, height) = input.info().wh();
-    let size = 2 * radius + 1;
 
     // Initialize histograms
     let mut row_in = Vec::with_capacity(n_cols);
@@ -613,56 +462,11 @@ fn init_cols_mean(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Ve
         }
 
         add_row_mean(histograms, &row_in);
-    }
-
-    // Initialize histograms
-    for hist in histograms.iter_mut() {
-        hist.init();
+        row_in.clear();
     }
 
     // Compute first mean values
-    let trim = (alpha as usize) / 2;
-    let upper_trim = (size * size) as usize - trim;
-    for i in 0..n_cols {
-        // The last set of columns can extend past the right edge of the image
-        if x + i as u32 >= output.info().width {
-            break;
-        }
-
-        p_out.clear();
-        for hist in histograms.iter_mut() {
-            let mut count = 0;
-            let mut sum = 0;
-            let mut upper = Vec::with_capacity(trim);
-            let mut lower = Vec::with_capacity(trim);
-
-            for key in 0u8..=255 {
-                let mut add = hist.data().get_count(key as usize, i);
-                count += add;
-                sum += add * key as i32;
-
-                while lower.len() < trim && add > 0 {
-                    lower.push(key);
-                    sum -= key as i32;
-                    add -= 1;
-                }
-
-                while (count as usize) > upper_trim && upper.len() < trim && add > 0 {
-                    upper.insert(0, key);
-                    sum -= key as i32;
-                    add -= 1;
-                }
-            }
-
-            hist.set_sum(sum, i);
-            hist.set_upper(upper, i);
-            hist.set_lower(lower, i);
-
-            p_out.push(hist.get_mean(i));
-        }
-
-        output.set_pixel(x + i as u32, 0, &p_out);
-    }
+    process_row_mean(output, histograms, p_out, n_cols, x, 0);
 }
 
 fn process_row_mean(output: &mut Image<u8>, histograms: &mut Vec<MeanHist>, p_out: &mut Vec<u8>, n_cols: usize, x: u32, y: u32) {
-- 
2.43.0


From 61cb2061643b48104491c1c271bf949e4486ac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 23/33] fix: morphology at borders, with alpha, with large
 radii and on large images

---
 src/morphology.rs | 131 +++++++++++++---------------------------------
 1 file changed, 37 insertions(+), 94 deletions(-)

diff --git a/src/morphology.rs b/src/morphology.rs
index 6026868..24164af 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -10,33 +10,15 @@ pub fn erode(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
     let (width, height) =  input.info().wh();
-    let size = 2 * radius + 1;
-    let max_sum = (size * size * 255) as f32;
-    let table = util::generate_summed_area_table(&input.clone().into());
-    let mut output = Image::blank(input.info());
+    let size = 2.0 * radius as f32 + 1.0;
+    let max_sum = size * size;
+    let table = generate_white_table(input);
+    let mut output = input.map_channels_if_alpha(|_| 0, |a| a);
 
     for y in 0..height {
         for x in 0..width {
-            let mut x_top = x;
-            let mut x_bot = x;
-            let mut y_top = y;
-            let mut y_bot = y;
-
-            if x >= radius {
-                x_top -= radius;
-            }
-            if x < width - radius {
-                x_bot += radius;
-            }
-            if y >= radius {
-                y_top -= radius;
-            }
-            if y < height - radius {
-                y_bot += radius;
-            }
-
-            if (util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] - max_sum).abs() < f32::EPSILON {
-                output.set_pixel(x, y, &[255]);
+            if (count_white(&table, radius, x, y) - max_sum).abs() < f32::EPSILON {
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
@@ -50,31 +32,13 @@ pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
     let (width, height) =  input.info().wh();
-    let table = util::generate_summed_area_table(&input.clone().into());
-    let mut output = Image::blank(input.info());
+    let table = generate_white_table(input);
+    let mut output = input.map_channels_if_alpha(|_| 0, |a| a);
 
     for y in 0..height {
         for x in 0..width {
-            let mut x_top = x;
-            let mut x_bot = x;
-            let mut y_top = y;
-            let mut y_bot = y;
-
-            if x >= radius {
-                x_top -= radius;
-            }
-            if x < width - radius {
-                x_bot += radius;
-            }
-            if y >= radius {
-                y_top -= radius;
-            }
-            if y < height - radius {
-                y_bot += radius;
-            }
-
-            if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255.0 {
-                output.set_pixel(x, y, &[255]);
+            if count_white(&table, radius, x, y) >= 1.0 {
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
@@ -88,31 +52,13 @@ pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
     let (width, height) =  input.info().wh();
-    let table = util::generate_summed_area_table(&input.clone().into());
-    let mut output = Image::blank(input.info());
+    let table = generate_white_table(input);
+    let mut output = input.map_channels_if_alpha(|_| 0, |a| a);
 
     for y in 0..height {
         for x in 0..width {
-            let mut x_top = x;
-            let mut x_bot = x;
-            let mut y_top = y;
-            let mut y_bot = y;
-
-            if x >= radius {
-                x_top -= radius;
-            }
-            if x < width - radius {
-                x_bot += radius;
-            }
-            if y >= radius {
-                y_top -= radius;
-            }
-            if y < height - radius {
-                y_bot += radius;
-            }
-
-            if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255.0 {
-                output.set_pixel(x, y, &[255]);
+            if count_white(&table, radius, x, y) >= 1.0 {
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
@@ -136,40 +82,37 @@ pub fn gradient(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
     let (width, height) =  input.info().wh();
-    let size = 2 * radius + 1;
-    let max_sum = (size * size * 255) as f32;
-    let table = util::generate_summed_area_table(&input.clone().into());
-    let mut output = Image::blank(input.info());
+    let size = 2.0 * radius as f32 + 1.0;
+    let max_sum = size * size;
+    let table = generate_white_table(input);
+    let mut output = input.map_channels_if_alpha(|_| 0, |a| a);
 
     for y in 0..height {
         for x in 0..width {
-            let mut x_top = x;
-            let mut x_bot = x;
-            let mut y_top = y;
-            let mut y_bot = y;
-
-            if x >= radius {
-                x_top -= radius;
-            }
-            if x < width - radius {
-                x_bot += radius;
-            }
-            if y >= radius {
-                y_top -= radius;
-            }
-            if y < height - radius {
-                y_bot += radius;
-            }
-
-            let sum = util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0];
+            let sum = count_white(&table, radius, x, y);
             let erode = ((sum - max_sum).abs() < f32::EPSILON);
-            let dilate = (sum >= 255.0);
+            let dilate = (sum >= 1.0);
 
             if erode ^ dilate {
-                output.set_pixel(x, y, &[255]);
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
 
     Ok(output)
-}
\ No newline at end of file
+}
+
+// Generates a summed-area table that counts white pixels
+fn generate_white_table(input: &Image<u8>) -> Image<f32> {
+    util::generate_summed_area_table(&input.map_channels(|channel| channel as f32 / 255.0))
+}
+
+// Returns the number of white pixels in the part of the kernel centered at `(x, y)` that lies
+// inside the image
+fn count_white(table: &Image<f32>, radius: u32, x: u32, y: u32) -> f32 {
+    let (width, height) = table.info().wh();
+    let x_bot = std::cmp::min(x.saturating_add(radius), width - 1);
+    let y_bot = std::cmp::min(y.saturating_add(radius), height - 1);
+
+    util::rectangular_intensity_sum(table, x.saturating_sub(radius), y.saturating_sub(radius), x_bot, y_bot)[0]
+}
-- 
2.43.0


From 9d77a10e8d395ea7c7b50ca4e5052d832ad60d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 24/33] fix: majority requires more than half of the kernel to
 be white

---
 src/morphology.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/morphology.rs b/src/morphology.rs
index 24164af..8251a23 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -52,12 +52,14 @@ pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
     let (width, height) =  input.info().wh();
+    let size = 2.0 * radius as f32 + 1.0;
+    let half_sum = size * size / 2.0;
     let table = generate_white_table(input);
     let mut output = input.map_channels_if_alpha(|_| 0, |a| a);
 
     for y in 0..height {
         for x in 0..width {
-            if count_white(&table, radius, x, y) >= 1.0 {
+            if count_white(&table, radius, x, y) > half_sum {
                 output.get_pixel_mut(x, y)[0] = 255;
             }
         }
-- 
2.43.0


From 9d9ba40a9fb055339ea2d46d9af9d843e1a66115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 25/33] fix: histogram percentiles count each pixel once

---
 src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index 317d722..7e50a21 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -41,7 +41,7 @@ pub fn generate_histogram_percentiles(input: &Image<f32>, percentiles: &mut Hash
     for y in 0..(input.info().height) {
         for x in 0..(input.info().width) {
             let p = (input.get_pixel(x, y)[0] * precision).round() as i32;
-            let count = histogram.entry(p).or_insert(1);
+            let count = histogram.entry(p).or_insert(0);
             *count += 1;
         }
     }
-- 
2.43.0


From ebd987446963290918dd6598bcc329b321e8dbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 26/33] fix: round when converting linearized sRGB back to 8
 bits

---
 src/colorspace.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colorspace.rs b/src/colorspace.rs
index ad1cbe9..0d95f78 100644
--- a/src/colorspace.rs
+++ b/src/colorspace.rs
@@ -73,9 +73,9 @@ pub fn linearize_srgb_f32(input: &Image<u8>) -> Image<f32> {
 pub fn unlinearize_srgb_f32(input: &Image<f32>) -> Image<u8> {
     input.map_channels_if_alpha(|num| {
         if num <= 0.0031308 {
-            (num * 3294.6) as u8
+            (num * 3294.6).round() as u8
         } else {
-            (269.025 * num.powf(1.0 / GAMMA) - 14.025) as u8
+            (269.025 * num.powf(1.0 / GAMMA) - 14.025).round() as u8
         }
     }, |a| a.round() as u8)
 }
-- 
2.43.0


From 071c23e0fbad0b084408f66db2f095aa7a34760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 27/33] fix: exponent of the sRGB transfer function

---
 src/util/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/constants.rs b/src/util/constants.rs
index 08367fc..4a17ffc 100644
--- a/src/util/constants.rs
+++ b/src/util/constants.rs
@@ -5,7 +5,7 @@
 /////////////////////////////////////////
 
 /// Gamma value for sRGB images
-pub const GAMMA: f32 = 2.2;
+pub const GAMMA: f32 = 2.4;
 
 /// sRGB to CIE XYZ transformation matrix
 pub const SRGB_TO_XYZ_MAT: [f32; 9] = [0.4124564, 0.3575761, 0.1804375,
-- 
2.43.0


From 1198764cb86fed91970e0255ea2c39e0efe03ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 28/33] fix: overflow in the range check of the brightness bias

---
 src/tone.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tone.rs b/src/tone.rs
index 72b3968..0757da8 100644
--- a/src/tone.rs
+++ b/src/tone.rs
@@ -16,7 +16,7 @@ use std::collections::HashMap;
 ///
 /// * `bias` - Must be between -255 and 255 (inclusive)
 pub fn brightness(input: &Image<u8>, bias: i16) -> ImgProcResult<Image<u8>> {
-    error::check_in_range(bias.abs(), -255, 255, "bias")?;
+    error::check_in_range(bias, -255, 255, "bias")?;
 
     #[cfg(feature = "simd")]
     {
@@ -43,7 +43,7 @@ fn brightness_rgb_norm(input: &Image<u8>, bias: i16) -> Image<u8> {
 ///
 /// * `bias` - Must be between -255 and 255 (inclusive)
 pub fn brightness_lab(input: &Image<u8>, bias: i16) -> ImgProcResult<Image<u8>> {
-    error::check_in_range(bias.abs(), -255, 255, "bias")?;
+    error::check_in_range(bias, -255, 255, "bias")?;
 
     let mut lab = colorspace::srgb_to_lab_f32(input, &White::D50);
     let bias_lab = (bias as f32) / 255.0 * 100.0;
-- 
2.43.0


From cdf70912e8013d08c38f2c83f13b150429879899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 29/33] fix: round when converting floating-point HSV back to 8
 bits

---
 src/colorspace.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/colorspace.rs b/src/colorspace.rs
index 0d95f78..cbf1662 100644
--- a/src/colorspace.rs
+++ b/src/colorspace.rs
@@ -253,7 +253,7 @@ pub fn rgb_to_hsv_f32(input: &Image<u8>) -> Image<f32> {
 pub fn hsv_to_rgb_f32(input: &Image<f32>) -> Image<u8> {
     input.map_pixels_if_alpha(|channels, p_out| {
         if channels[1] == 0.0 {
-            let val = (channels[2] * 255.0) as u8;
+            let val = (channels[2] * 255.0).round() as u8;
 
             p_out.extend([val, val, val].iter());
             return;
@@ -261,10 +261,10 @@ pub fn hsv_to_rgb_f32(input: &Image<f32>) -> Image<u8> {
 
         let hue = channels[0] * 6.0;
         let f = hue - hue.floor();
-        let p = (channels[2] * (1.0 - channels[1]) * 255.0) as u8;
-        let q = (channels[2] * (1.0 - channels[1] * f) * 255.0) as u8;
-        let t = (channels[2] * (1.0 - channels[1] * (1.0 - f)) * 255.0) as u8;
-        let val = (channels[2] * 255.0) as u8;
+        let p = (channels[2] * (1.0 - channels[1]) * 255.0).round() as u8;
+        let q = (channels[2] * (1.0 - channels[1] * f) * 255.0).round() as u8;
+        let t = (channels[2] * (1.0 - channels[1] * (1.0 - f)) * 255.0).round() as u8;
+        let val = (channels[2] * 255.0).round() as u8;
 
         match hue.floor() as u8 {
             0 => p_out.extend([val, t, p].iter()),
-- 
2.43.0


From 3c734e62f7097fb77e4c86c39515582d5e4e0e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 30/33] fix: dimension check of the matrix-vector products

---
 src/util/math.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/util/math.rs b/src/util/math.rs
index c223b28..d168069 100644
--- a/src/util/math.rs
+++ b/src/util/math.rs
@@ -7,9 +7,8 @@ use std::f32::consts::{PI, E};
 /// Returns the result of the multiplication of a square matrix by a vector
 pub fn vector_mul<T: Number>(mat: &[T], input: &[T]) -> ImgProcResult<Vec<T>> {
     let rows = input.len();
-    let mat_cols = mat.len() / rows;
 
-    error::check_equal(mat_cols, rows, "mat and vec dimensions")?;
+    error::check_equal(mat.len(), rows * rows, "mat and vec dimensions")?;
 
     let mut output = vec![0.into(); rows];
 
@@ -25,9 +24,8 @@ pub fn vector_mul<T: Number>(mat: &[T], input: &[T]) -> ImgProcResult<Vec<T>> {
 /// Returns the result of the multiplication of a square matrix by a vector in `output`
 pub fn vector_mul_mut<T: Number>(mat: &[T], input: &[T], output: &mut Vec<T>) -> ImgProcResult<()> {
     let rows = input.len();
-    let mat_cols = mat.len() / rows;
 
-    error::check_equal(mat_cols, rows, "mat and vec dimensions")?;
+    error::check_equal(mat.len(), rows * rows, "mat and vec dimensions")?;
 
     output.clear();
     for _ in 0..rows {
-- 
2.43.0


From a33e5df8420d7b82e6b423996f0553cb4a6c725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 31/33] fix: division by zero when mapping over an image
 without pixels

---
 src/image/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index 5ef8d90..59ee671 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -404,7 +404,7 @@ impl<T: Number> Image<T> {
             data.append(&mut p_out);
         }
 
-        let channels = (data.len() as u32 / self.info.size()) as u8;
+        let channels = (data.len() as u32).checked_div(self.info.size()).unwrap_or(self.info.channels as u32) as u8;
 
         Image {
             info: ImageInfo {
@@ -436,7 +436,7 @@ impl<T: Number> Image<T> {
             data.append(&mut p_out);
         }
 
-        let channels = (data.len() as u32 / self.info.size()) as u8;
+        let channels = (data.len() as u32).checked_div(self.info.size()).unwrap_or(self.info.channels as u32) as u8;
 
         Image {
             info: ImageInfo {
-- 
2.43.0


From 34127efd06206076e2b3baea12ed3479707a5581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 32/33] fix: a hue of 1 in the floating-point HSV conversion is
 red

---
 src/colorspace.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/colorspace.rs b/src/colorspace.rs
index cbf1662..6d1c2c8 100644
--- a/src/colorspace.rs
+++ b/src/colorspace.rs
@@ -266,8 +266,9 @@ pub fn hsv_to_rgb_f32(input: &Image<f32>) -> Image<u8> {
         let t = (channels[2] * (1.0 - channels[1] * (1.0 - f)) * 255.0).round() as u8;
         let val = (channels[2] * 255.0).round() as u8;
 
+        // A hue of 1 is a full turn, which is the same hue as 0
         match hue.floor() as u8 {
-            0 => p_out.extend([val, t, p].iter()),
+            0 | 6 => p_out.extend([val, t, p].iter()),
             1 => p_out.extend([q, val, p].iter()),
             2 => p_out.extend([p, val, t].iter()),
             3 => p_out.extend([p, q, val].iter()),
-- 
2.43.0


From f3bd2dd7e9dd3040a2181cedfdd472faf01425e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 33/33] fix: rounding of the alpha-trimmed mean for large
 kernels

---
 src/filter/median.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 6251ef4..d4905ac 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -397,7 +397,7 @@ impl MeanHist {
     // index
     fn get_mean(&self, index: usize) -> u8 {
         let mut count = 0;
-        let mut sum = 0;
+        let mut sum: i64 = 0;
 
         for key in 0..256 {
             // If all the pixels in the kernel were sorted, the pixels with a value of key would be
@@ -407,13 +407,15 @@ impl MeanHist {
             let end = (count + add).min(self.trim + self.len);
 
             if end > start {
-                sum += (end - start) * key as i32;
+                sum += (end - start) as i64 * key as i64;
             }
 
             count += add;
         }
 
-        ((sum as f32) / (self.len as f32)).round() as u8
+        // Round to the nearest integer. A large kernel has more pixels than f32 can tell apart
+        let len = self.len as i64;
+        ((2 * sum + len) / (2 * len)) as u8
     }
 }
 
-- 
2.43.0

