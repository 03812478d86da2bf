From 79aa46c672d49fb579a821164c6601ec77092077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 01/63] fix: read the big-endian 4:2:2 alpha images as big
 endian

---
 src/yuv_p16_rgba16_alpha.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yuv_p16_rgba16_alpha.rs b/src/yuv_p16_rgba16_alpha.rs
index 936bfaf..29dee22 100644
--- a/src/yuv_p16_rgba16_alpha.rs
+++ b/src/yuv_p16_rgba16_alpha.rs
@@ -521,7 +521,7 @@ d_cnv!(
     i210_alpha_be_to_rgba10,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I210ABE",
     "RGBA",
     "rgba",
@@ -607,7 +607,7 @@ d_cnv!(
     i212_be_alpha_to_rgba12,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I212ABE",
     "RGBA",
     "rgba",
@@ -628,7 +628,7 @@ d_cnv!(
     i214_be_alpha_to_rgba14,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I214ABE",
     "RGBA",
     "rgba",
-- 
2.43.0


From 91a70d6f690f5021d7f8aac6488b8806a9f8e2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 02/63] fix: convert the alpha plane of high bit-depth images
 with its byte order, every 16 samples

---
 src/avx2/yuv_p16_to_rgb16_alpha.rs | 25 ++++++++++++++++++---
 src/avx2/yuv_p16_to_rgb8_alpha.rs  | 35 ++++++++++++++++++++----------
 src/sse/yuv_p16_to_rgb16_alpha.rs  |  9 +++++++-
 src/sse/yuv_p16_to_rgb8_alpha.rs   | 12 +++++++---
 src/yuv_p16_rgba16_alpha.rs        | 12 ++++++----
 src/yuv_p16_rgba_alpha.rs          | 15 +++++++++----
 6 files changed, 81 insertions(+), 27 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb16_alpha.rs b/src/avx2/yuv_p16_to_rgb16_alpha.rs
index 4b25b4b..6aa8269 100644
--- a/src/avx2/yuv_p16_to_rgb16_alpha.rs
+++ b/src/avx2/yuv_p16_to_rgb16_alpha.rs
@@ -269,8 +269,19 @@ unsafe fn avx_yuv_p16_to_rgba_row_alpha_impl<
         let g_values1 = _mm256_min_epu16(zg1, v_max_colors);
         let b_values1 = _mm256_min_epu16(zb1, v_max_colors);
 
-        let a_values0 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
-        let a_values1 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let mut a_values0 =
+            _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let mut a_values1 =
+            _mm256_loadu_si256(a_plane.get_unchecked((cx + 16)..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values0 = _mm256_shuffle_epi8(a_values0, big_endian_shuffle_flag);
+            a_values1 = _mm256_shuffle_epi8(a_values1, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_values0 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_values0);
+            a_values1 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_values1);
+        }
 
         _mm256_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
@@ -379,7 +390,15 @@ unsafe fn avx_yuv_p16_to_rgba_row_alpha_impl<
         let g_values = _mm256_min_epu16(_mm256_max_epi16(g_vals, zeros), v_max_colors);
         let b_values = _mm256_min_epu16(_mm256_max_epi16(b_vals, zeros), v_max_colors);
 
-        let a_values = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let mut a_values =
+            _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values = _mm256_shuffle_epi8(a_values, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_values = _mm256_from_msb_epi16::<BIT_DEPTH>(a_values);
+        }
 
         _mm256_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/avx2/yuv_p16_to_rgb8_alpha.rs b/src/avx2/yuv_p16_to_rgb8_alpha.rs
index 6bdbc80..121eb11 100644
--- a/src/avx2/yuv_p16_to_rgb8_alpha.rs
+++ b/src/avx2/yuv_p16_to_rgb8_alpha.rs
@@ -253,13 +253,21 @@ unsafe fn avx_yuv_p16_to_rgba8_row_alpha_impl<
         let b_vals1 = _mm256_add_epi16(y_vals1, bvl1);
         let g_vals1 = _mm256_add_epi16(_mm256_add_epi16(y_vals1, gvl10), gvl11);
 
+        let mut a_vl0 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let mut a_vl1 =
+            _mm256_loadu_si256(a_plane.get_unchecked((cx + 16)..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vl0 = _mm256_shuffle_epi8(a_vl0, big_endian_shuffle_flag);
+            a_vl1 = _mm256_shuffle_epi8(a_vl1, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_vl0 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_vl0);
+            a_vl1 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_vl1);
+        }
         let a_values0 = avx2_pack_u16(
-            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
-            )),
-            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
-            )),
+            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl0),
+            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl1),
         );
 
         let r_values0 = avx2_pack_u16(
@@ -379,12 +387,15 @@ unsafe fn avx_yuv_p16_to_rgba8_row_alpha_impl<
         let g_values = avx2_pack_u16(_mm256_store_shr_epi16_epi8::<BIT_DEPTH>(g_vals), zeros);
         let b_values = avx2_pack_u16(_mm256_store_shr_epi16_epi8::<BIT_DEPTH>(b_vals), zeros);
 
-        let a_values = avx2_pack_u16(
-            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
-            )),
-            zeros,
-        );
+        let mut a_vl = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vl = _mm256_shuffle_epi8(a_vl, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_vl = _mm256_from_msb_epi16::<BIT_DEPTH>(a_vl);
+        }
+        let a_values = avx2_pack_u16(_mm256_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl), zeros);
 
         _mm256_store_interleave_rgb_half_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/sse/yuv_p16_to_rgb16_alpha.rs b/src/sse/yuv_p16_to_rgb16_alpha.rs
index 4f73c89..05e36cc 100644
--- a/src/sse/yuv_p16_to_rgb16_alpha.rs
+++ b/src/sse/yuv_p16_to_rgb16_alpha.rs
@@ -207,7 +207,14 @@ unsafe fn sse_yuv_p16_to_rgba_alpha_row_impl<
         let g_values = _mm_min_epu16(_mm_max_epi16(g_vals, zeros), v_max_colors);
         let b_values = _mm_min_epu16(_mm_max_epi16(b_vals, zeros), v_max_colors);
 
-        let a_values = _mm_loadu_si128(a_plane.get_unchecked(cx..).as_ptr() as *const __m128i);
+        let mut a_values = _mm_loadu_si128(a_plane.get_unchecked(cx..).as_ptr() as *const __m128i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values = _mm_shuffle_epi8(a_values, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_values = _mm_from_msb_epi16::<BIT_DEPTH>(a_values);
+        }
 
         _mm_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/sse/yuv_p16_to_rgb8_alpha.rs b/src/sse/yuv_p16_to_rgb8_alpha.rs
index 8dec168..7fb74a3 100644
--- a/src/sse/yuv_p16_to_rgb8_alpha.rs
+++ b/src/sse/yuv_p16_to_rgb8_alpha.rs
@@ -210,10 +210,16 @@ unsafe fn sse_yuv_p16_to_rgba8_alpha_row_impl<
             _mm_setzero_si128(),
         );
 
+        let mut a_vl = _mm_loadu_si128(a_plane.get_unchecked(cx..).as_ptr() as *const __m128i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vl = _mm_shuffle_epi8(a_vl, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_vl = _mm_from_msb_epi16::<BIT_DEPTH>(a_vl);
+        }
         let a_values = _mm_packus_epi16(
-            _mm_store_shr_epi16_epi8::<BIT_DEPTH>(_mm_loadu_si128(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m128i,
-            )),
+            _mm_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl),
             _mm_setzero_si128(),
         );
 
diff --git a/src/yuv_p16_rgba16_alpha.rs b/src/yuv_p16_rgba16_alpha.rs
index 29dee22..996cb1c 100644
--- a/src/yuv_p16_rgba16_alpha.rs
+++ b/src/yuv_p16_rgba16_alpha.rs
@@ -247,7 +247,8 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u16;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u16;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u16;
-            rgba0[dst_chans.get_a_channel_offset()] = a_src[0];
+            rgba0[dst_chans.get_a_channel_offset()] =
+                to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[0], msb_shift);
 
             let y_value1 =
                 (to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[1], msb_shift) as i32 - bias_y) * y_coef;
@@ -262,7 +263,8 @@ fn yuv_p16_to_image_alpha_ant<
             rgba1[dst_chans.get_r_channel_offset()] = r1 as u16;
             rgba1[dst_chans.get_g_channel_offset()] = g1 as u16;
             rgba1[dst_chans.get_b_channel_offset()] = b1 as u16;
-            rgba1[dst_chans.get_a_channel_offset()] = a_src[1];
+            rgba1[dst_chans.get_a_channel_offset()] =
+                to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[1], msb_shift);
         }
 
         if image.width & 1 != 0 {
@@ -276,7 +278,8 @@ fn yuv_p16_to_image_alpha_ant<
             let cr_value = to_ne::<ENDIANNESS, BYTES_POSITION>(*v_plane.last().unwrap(), msb_shift)
                 as i32
                 - bias_uv;
-            let a_value = *a_plane.last().unwrap();
+            let a_value =
+                to_ne::<ENDIANNESS, BYTES_POSITION>(*a_plane.last().unwrap(), msb_shift);
             let rgba = rgba.chunks_exact_mut(channels).last().unwrap();
             let rgba0 = &mut rgba[0..channels];
 
@@ -340,7 +343,8 @@ fn yuv_p16_to_image_alpha_ant<
                 rgba[dst_chans.get_r_channel_offset()] = r as u16;
                 rgba[dst_chans.get_g_channel_offset()] = g as u16;
                 rgba[dst_chans.get_b_channel_offset()] = b as u16;
-                rgba[dst_chans.get_a_channel_offset()] = a_src;
+                rgba[dst_chans.get_a_channel_offset()] =
+                    to_ne::<ENDIANNESS, BYTES_POSITION>(a_src, msb_shift);
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv422 {
diff --git a/src/yuv_p16_rgba_alpha.rs b/src/yuv_p16_rgba_alpha.rs
index 52178d2..bafe53e 100644
--- a/src/yuv_p16_rgba_alpha.rs
+++ b/src/yuv_p16_rgba_alpha.rs
@@ -231,7 +231,9 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u8;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u8;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u8;
-            rgba0[dst_chans.get_a_channel_offset()] = (a_src[0] >> store_shift).min(255) as u8;
+            rgba0[dst_chans.get_a_channel_offset()] = 
+                (to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[0], msb_shift) >> store_shift).min(255)
+                    as u8;
 
             let y_value1 =
                 (to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[1], msb_shift) as i32 - bias_y) * y_coef;
@@ -245,7 +247,9 @@ fn yuv_p16_to_image_alpha_ant<
             rgba1[dst_chans.get_r_channel_offset()] = r1 as u8;
             rgba1[dst_chans.get_g_channel_offset()] = g1 as u8;
             rgba1[dst_chans.get_b_channel_offset()] = b1 as u8;
-            rgba1[dst_chans.get_a_channel_offset()] = (a_src[1] >> store_shift).min(255) as u8;
+            rgba1[dst_chans.get_a_channel_offset()] = 
+                (to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[1], msb_shift) >> store_shift).min(255)
+                    as u8;
         }
 
         if image.width & 1 != 0 {
@@ -259,7 +263,8 @@ fn yuv_p16_to_image_alpha_ant<
             let cr_value = to_ne::<ENDIANNESS, BYTES_POSITION>(*v_plane.last().unwrap(), msb_shift)
                 as i32
                 - bias_uv;
-            let a_value = *a_plane.last().unwrap();
+            let a_value =
+                to_ne::<ENDIANNESS, BYTES_POSITION>(*a_plane.last().unwrap(), msb_shift);
             let rgba = rgba.chunks_exact_mut(channels).last().unwrap();
             let rgba0 = &mut rgba[0..channels];
 
@@ -320,7 +325,9 @@ fn yuv_p16_to_image_alpha_ant<
                 rgba[dst_chans.get_r_channel_offset()] = r as u8;
                 rgba[dst_chans.get_g_channel_offset()] = g as u8;
                 rgba[dst_chans.get_b_channel_offset()] = b as u8;
-                rgba[dst_chans.get_a_channel_offset()] = (a_src >> store_shift).min(255) as u8;
+                rgba[dst_chans.get_a_channel_offset()] = 
+                    (to_ne::<ENDIANNESS, BYTES_POSITION>(a_src, msb_shift) >> store_shift).min(255)
+                        as u8;
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv422 {
-- 
2.43.0


From d22cab0987920aa595a75acd5ec3f9482f522a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 03/63] fix: SSE high bit-depth to RGBA8 with alpha stores only
 the 8 pixels it computed

---
 src/sse/yuv_p16_to_rgb8_alpha.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/yuv_p16_to_rgb8_alpha.rs b/src/sse/yuv_p16_to_rgb8_alpha.rs
index 7fb74a3..f7c65a5 100644
--- a/src/sse/yuv_p16_to_rgb8_alpha.rs
+++ b/src/sse/yuv_p16_to_rgb8_alpha.rs
@@ -33,7 +33,7 @@ use std::arch::x86::*;
 use std::arch::x86_64::*;
 
 use crate::internals::ProcessedOffset;
-use crate::sse::{_mm_from_msb_epi16, _mm_store_interleave_rgb_for_yuv, _mm_store_shr_epi16_epi8};
+use crate::sse::{_mm_from_msb_epi16, _mm_store_interleave_half_rgb_for_yuv, _mm_store_shr_epi16_epi8};
 use crate::yuv_support::{
     CbCrInverseTransform, YuvBytesPacking, YuvChromaRange, YuvChromaSubsampling, YuvEndianness,
     YuvSourceChannels,
@@ -223,7 +223,7 @@ unsafe fn sse_yuv_p16_to_rgba8_alpha_row_impl<
             _mm_setzero_si128(),
         );
 
-        _mm_store_interleave_rgb_for_yuv::<DESTINATION_CHANNELS>(
+        _mm_store_interleave_half_rgb_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
             r_values,
             g_values,
-- 
2.43.0


From 245d8c74e727b952dcca9972d930692af737cdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 04/63] fix: clamp high bit-depth YUV to 8-bit RGB to 255
 instead of wrapping around

---
 src/yuv_p10_rgba.rs       | 2 +-
 src/yuv_p16_rgba_alpha.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yuv_p10_rgba.rs b/src/yuv_p10_rgba.rs
index ce4bed4..a6e5ae7 100644
--- a/src/yuv_p10_rgba.rs
+++ b/src/yuv_p10_rgba.rs
@@ -147,7 +147,7 @@ fn yuv_p16_to_image_ant<
     fn qrshr<const BIT_DEPTH: usize>(val: i32) -> i32 {
         let total_shift = PRECISION + (BIT_DEPTH as i32 - 8);
         let rounding: i32 = 1 << (total_shift - 1);
-        let max_value: i32 = (1 << BIT_DEPTH) - 1;
+        let max_value: i32 = u8::MAX as i32;
         ((val + rounding) >> total_shift).min(max_value).max(0)
     }
 
diff --git a/src/yuv_p16_rgba_alpha.rs b/src/yuv_p16_rgba_alpha.rs
index bafe53e..9482319 100644
--- a/src/yuv_p16_rgba_alpha.rs
+++ b/src/yuv_p16_rgba_alpha.rs
@@ -105,7 +105,7 @@ fn yuv_p16_to_image_alpha_ant<
     fn qrshr<const BIT_DEPTH: usize>(val: i32) -> i32 {
         let total_shift = PRECISION + (BIT_DEPTH as i32 - 8);
         let rounding: i32 = 1 << (total_shift - 1);
-        let max_value: i32 = (1 << BIT_DEPTH) - 1;
+        let max_value: i32 = u8::MAX as i32;
         ((val + rounding) >> total_shift).min(max_value).max(0)
     }
 
-- 
2.43.0


From 044c420c7c15f20fa922ba7bb307e9ef53d442d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 05/63] fix: 4:2:2 high bit-depth to RGBA8 with alpha leaves
 the row padding alone and finds the last column

---
 src/yuv_p16_rgba_alpha.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/yuv_p16_rgba_alpha.rs b/src/yuv_p16_rgba_alpha.rs
index 9482319..f244549 100644
--- a/src/yuv_p16_rgba_alpha.rs
+++ b/src/yuv_p16_rgba_alpha.rs
@@ -351,7 +351,13 @@ fn yuv_p16_to_image_alpha_ant<
                 .zip(image.v_plane.chunks_exact(image.v_stride as usize));
         }
         iter.for_each(|((((rgba, y_plane), a_plane), u_plane), v_plane)| {
-            process_halved_chroma_row(y_plane, u_plane, v_plane, a_plane, rgba);
+            process_halved_chroma_row(
+                &y_plane[0..image.width as usize],
+                &u_plane[0..(image.width as usize).div_ceil(2)],
+                &v_plane[0..(image.width as usize).div_ceil(2)],
+                &a_plane[0..image.width as usize],
+                &mut rgba[0..image.width as usize * channels],
+            );
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
         let iter;
-- 
2.43.0


From 4f0a9cb9d0706e12c08982d44202babfb68d12a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 06/63] fix: AVX-512 VNNI fast RGB to YUV adds the bias once

---
 src/avx512bw/rgba_to_yuv_fast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avx512bw/rgba_to_yuv_fast.rs b/src/avx512bw/rgba_to_yuv_fast.rs
index 8715b4c..3ec1908 100644
--- a/src/avx512bw/rgba_to_yuv_fast.rs
+++ b/src/avx512bw/rgba_to_yuv_fast.rs
@@ -593,8 +593,8 @@ unsafe fn avx512_rgba_to_yuv_dot_rgba_impl_dot_impl<
         source_channels == YuvSourceChannels::Rgb || source_channels == YuvSourceChannels::Bgr;
 
     const A_E: u32 = 7;
-    let y_bias = _mm512_set1_epi16(range.bias_y as i16 * (1 << A_E) + (1 << (A_E - 1)) - 1);
-    let uv_bias = _mm512_set1_epi16(range.bias_uv as i16 * (1 << A_E) + (1 << (A_E - 1)) - 1);
+    let y_bias = _mm512_set1_epi32(range.bias_y as i32 * (1 << A_E) + (1 << (A_E - 1)) - 1);
+    let uv_bias = _mm512_set1_epi32(range.bias_uv as i32 * (1 << A_E) + (1 << (A_E - 1)) - 1);
 
     let y_weights = if is_rgbx {
         _mm512_set4r_epi8(
-- 
2.43.0


From 505a8b3a5fa9d1ffda726be5aa153ce7a94c5d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 07/63] fix: subtract the luma bias as unsigned bytes in the
 SSE narrow loops and the AVX-512 gray loop

---
 src/avx512bw/y_to_rgb.rs     | 4 ++--
 src/sse/y_to_rgba.rs         | 4 ++--
 src/sse/y_to_rgba_alpha.rs   | 2 +-
 src/sse/yuv_nv_to_rgba.rs    | 4 ++--
 src/sse/yuv_nv_to_rgba420.rs | 8 ++++----
 src/sse/yuv_nv_to_rgba422.rs | 4 ++--
 src/sse/yuv_to_rgba.rs       | 2 +-
 src/sse/yuv_to_rgba422.rs    | 2 +-
 8 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/avx512bw/y_to_rgb.rs b/src/avx512bw/y_to_rgb.rs
index ef3ee28..46e830c 100644
--- a/src/avx512bw/y_to_rgb.rs
+++ b/src/avx512bw/y_to_rgb.rs
@@ -104,7 +104,7 @@ unsafe fn avx512_y_to_rgb_row_impl<const DESTINATION_CHANNELS: u8, const HAS_VBM
     let v_alpha = _mm512_set1_epi8(255u8 as i8);
 
     while cx + 64 < width {
-        let y_s = _mm512_subs_epi8(_mm512_loadu_si512(y_ptr.add(cx) as *const i32), y_corr);
+        let y_s = _mm512_subs_epu8(_mm512_loadu_si512(y_ptr.add(cx) as *const i32), y_corr);
 
         let y10 = _mm512_expand8_unordered_to_10(y_s);
 
@@ -143,7 +143,7 @@ unsafe fn avx512_y_to_rgb_row_impl<const DESTINATION_CHANNELS: u8, const HAS_VBM
             diff,
         );
 
-        let y_s = _mm512_subs_epi8(_mm512_loadu_si512(y_buffer.as_ptr() as *const i32), y_corr);
+        let y_s = _mm512_subs_epu8(_mm512_loadu_si512(y_buffer.as_ptr() as *const i32), y_corr);
 
         let y10 = _mm512_expand8_unordered_to_10(y_s);
 
diff --git a/src/sse/y_to_rgba.rs b/src/sse/y_to_rgba.rs
index e0b899b..9b5a658 100644
--- a/src/sse/y_to_rgba.rs
+++ b/src/sse/y_to_rgba.rs
@@ -101,7 +101,7 @@ unsafe fn sse_y_to_rgba_row_impl<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
 
@@ -134,7 +134,7 @@ unsafe fn sse_y_to_rgba_row_impl<const DESTINATION_CHANNELS: u8>(
             diff,
         );
 
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_buffer.as_ptr()), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_buffer.as_ptr()), y_corr);
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
 
diff --git a/src/sse/y_to_rgba_alpha.rs b/src/sse/y_to_rgba_alpha.rs
index 2fad23b..c8ce57d 100644
--- a/src/sse/y_to_rgba_alpha.rs
+++ b/src/sse/y_to_rgba_alpha.rs
@@ -104,7 +104,7 @@ unsafe fn sse_y_to_rgba_alpha_row_impl<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
         let a_values = _mm_loadu_si64(a_plane.get_unchecked(cx..).as_ptr());
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
diff --git a/src/sse/yuv_nv_to_rgba.rs b/src/sse/yuv_nv_to_rgba.rs
index deb8fb5..394ffe0 100644
--- a/src/sse/yuv_nv_to_rgba.rs
+++ b/src/sse/yuv_nv_to_rgba.rs
@@ -264,7 +264,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl<
             }
         }
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
         let u_low = _mm_sub_epi16(u_low_u16, uv_corr);
         let v_low = _mm_sub_epi16(v_low_u16, uv_corr);
         let y_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
@@ -383,7 +383,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl<
             }
         }
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
         let u_low = _mm_sub_epi16(u_low_u16, uv_corr);
         let v_low = _mm_sub_epi16(v_low_u16, uv_corr);
         let y_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
diff --git a/src/sse/yuv_nv_to_rgba420.rs b/src/sse/yuv_nv_to_rgba420.rs
index 23240ef..5be0faa 100644
--- a/src/sse/yuv_nv_to_rgba420.rs
+++ b/src/sse/yuv_nv_to_rgba420.rs
@@ -190,8 +190,8 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let uv_values_ = _mm_loadu_si64(uv_ptr.add(uv_x));
 
-        let y_values0 = _mm_subs_epi8(y_vl0, y_corr);
-        let y_values1 = _mm_subs_epi8(y_vl1, y_corr);
+        let y_values0 = _mm_subs_epu8(y_vl0, y_corr);
+        let y_values1 = _mm_subs_epu8(y_vl1, y_corr);
         let (mut u, mut v) = _mm_deinterleave_x2_epi8(uv_values_, zeros);
 
         if order == YuvNVOrder::VU {
@@ -291,8 +291,8 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let uv_values_ = _mm_loadu_si64(uv_buffer.as_ptr());
 
-        let y_values0 = _mm_subs_epi8(y_vl0, y_corr);
-        let y_values1 = _mm_subs_epi8(y_vl1, y_corr);
+        let y_values0 = _mm_subs_epu8(y_vl0, y_corr);
+        let y_values1 = _mm_subs_epu8(y_vl1, y_corr);
         let (mut u, mut v) = _mm_deinterleave_x2_epi8(uv_values_, zeros);
 
         if order == YuvNVOrder::VU {
diff --git a/src/sse/yuv_nv_to_rgba422.rs b/src/sse/yuv_nv_to_rgba422.rs
index 6174767..60520b9 100644
--- a/src/sse/yuv_nv_to_rgba422.rs
+++ b/src/sse/yuv_nv_to_rgba422.rs
@@ -163,7 +163,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl422<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let distribute_shuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
 
         u = _mm_shuffle_epi8(u, distribute_shuffle);
         v = _mm_shuffle_epi8(v, distribute_shuffle);
@@ -238,7 +238,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl422<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let distribute_shuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
 
         u = _mm_shuffle_epi8(u, distribute_shuffle);
         v = _mm_shuffle_epi8(v, distribute_shuffle);
diff --git a/src/sse/yuv_to_rgba.rs b/src/sse/yuv_to_rgba.rs
index 32ab642..ea7da7e 100644
--- a/src/sse/yuv_to_rgba.rs
+++ b/src/sse/yuv_to_rgba.rs
@@ -176,7 +176,7 @@ unsafe fn sse_yuv_to_rgba_row_impl<const DESTINATION_CHANNELS: u8, const SAMPLIN
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_xx_load_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_xx_load_si64(y_ptr.add(cx)), y_corr);
 
         let (u_low_u16, v_low_u16);
 
diff --git a/src/sse/yuv_to_rgba422.rs b/src/sse/yuv_to_rgba422.rs
index b7ad4e2..f72f4df 100644
--- a/src/sse/yuv_to_rgba422.rs
+++ b/src/sse/yuv_to_rgba422.rs
@@ -157,7 +157,7 @@ unsafe fn sse_yuv_to_rgba_row_impl422<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_xx_load_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_xx_load_si64(y_ptr.add(cx)), y_corr);
 
         let reshuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-- 
2.43.0


From bf1944ddc4d79121ffef7d3c764d73462776e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 08/63] fix: the big-endian high bit-depth to BGRA converters
 store BGRA

---
 src/yuv_p10_rgba.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yuv_p10_rgba.rs b/src/yuv_p10_rgba.rs
index a6e5ae7..4a6df89 100644
--- a/src/yuv_p10_rgba.rs
+++ b/src/yuv_p10_rgba.rs
@@ -542,7 +542,7 @@ build_cnv!(
 build_cnv!(
     i010_be_to_bgra,
     YuvChromaSubsampling::Yuv420,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     10,
     "YUV 420 10-bit",
     "BGRA",
@@ -630,7 +630,7 @@ build_cnv!(
 build_cnv!(
     i210_be_to_bgra,
     YuvChromaSubsampling::Yuv422,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     10,
     "YUV 420 10-bit",
     "BGRA",
@@ -718,7 +718,7 @@ build_cnv!(
 build_cnv!(
     i012_be_to_bgra,
     YuvChromaSubsampling::Yuv420,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     12,
     "YUV 420 12-bit",
     "BGRA",
@@ -806,7 +806,7 @@ build_cnv!(
 build_cnv!(
     i212_be_to_bgra,
     YuvChromaSubsampling::Yuv422,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     12,
     "YUV 420 12-bit",
     "BGRA",
-- 
2.43.0


From 03aba0ea8b0d8db717d81a49db0a117a6e0b23af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 09/63] fix: the SIMD high bit-depth to RGBA8 converters store
 an opaque 8-bit alpha

---
 src/avx2/yuv_p16_to_rgb8.rs     | 2 +-
 src/avx512bw/yuv_p16_to_rgb8.rs | 2 +-
 src/sse/yuv_p16_to_rgb8.rs      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb8.rs b/src/avx2/yuv_p16_to_rgb8.rs
index b372277..191c98c 100644
--- a/src/avx2/yuv_p16_to_rgb8.rs
+++ b/src/avx2/yuv_p16_to_rgb8.rs
@@ -109,7 +109,7 @@ unsafe fn avx_yuv_p16_to_rgba_row8_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm256_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_max_colors = _mm256_set1_epi8(-1);
 
     let y_corr = _mm256_set1_epi16(bias_y as i16);
     let uv_corr = _mm256_set1_epi16(bias_uv as i16);
diff --git a/src/avx512bw/yuv_p16_to_rgb8.rs b/src/avx512bw/yuv_p16_to_rgb8.rs
index b1d4f44..c596bfe 100644
--- a/src/avx512bw/yuv_p16_to_rgb8.rs
+++ b/src/avx512bw/yuv_p16_to_rgb8.rs
@@ -189,7 +189,7 @@ unsafe fn avx_yuv_p16_to_rgba_row8_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm512_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_max_colors = _mm512_set1_epi8(-1);
 
     let y_corr = _mm512_set1_epi16(bias_y as i16);
     let uv_corr = _mm512_set1_epi16(bias_uv as i16);
diff --git a/src/sse/yuv_p16_to_rgb8.rs b/src/sse/yuv_p16_to_rgb8.rs
index da80224..40c3ce4 100644
--- a/src/sse/yuv_p16_to_rgb8.rs
+++ b/src/sse/yuv_p16_to_rgb8.rs
@@ -108,7 +108,7 @@ unsafe fn sse_yuv_p16_to_rgba8_row_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_max_colors = _mm_set1_epi8(-1);
 
     let y_corr = _mm_set1_epi16(bias_y as i16);
     let uv_corr = _mm_set1_epi16(bias_uv as i16);
-- 
2.43.0


From e3b96f9040ef7ccbabe2e0267259db247bd78a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 10/63] fix: saturate the chroma sums in the fast SIMD NV to
 RGB converters instead of wrapping

---
 src/avx2/yuv_nv_to_rgba_fast.rs        | 16 ++++++-------
 src/avx2/yuv_nv_to_rgba_fast420.rs     | 32 +++++++++++++-------------
 src/avx512bw/yuv_nv_to_rgba_fast420.rs | 32 +++++++++++++-------------
 src/sse/yuv_nv_to_rgba_fast.rs         | 16 ++++++-------
 src/sse/yuv_nv_to_rgba_fast420.rs      | 32 +++++++++++++-------------
 5 files changed, 64 insertions(+), 64 deletions(-)

diff --git a/src/avx2/yuv_nv_to_rgba_fast.rs b/src/avx2/yuv_nv_to_rgba_fast.rs
index 4ed1e6a..105ecc2 100644
--- a/src/avx2/yuv_nv_to_rgba_fast.rs
+++ b/src/avx2/yuv_nv_to_rgba_fast.rs
@@ -167,12 +167,12 @@ unsafe fn avx_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm256_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm256_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm256_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_gh, b_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_gh, b_c_hi);
         let mut g_high0 = _mm256_sub_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl, b_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl, b_c_lo);
         let mut g_low0 = _mm256_sub_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
@@ -302,12 +302,12 @@ unsafe fn avx_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm256_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm256_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm256_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_gh, b_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_gh, b_c_hi);
         let mut g_high0 = _mm256_sub_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl, b_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl, b_c_lo);
         let mut g_low0 = _mm256_sub_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
diff --git a/src/avx2/yuv_nv_to_rgba_fast420.rs b/src/avx2/yuv_nv_to_rgba_fast420.rs
index 2793803..0fa03cb 100644
--- a/src/avx2/yuv_nv_to_rgba_fast420.rs
+++ b/src/avx2/yuv_nv_to_rgba_fast420.rs
@@ -125,12 +125,12 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm256_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm256_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm256_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_g0, b_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_g0, b_c_hi);
         let mut g_high0 = _mm256_sub_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm256_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm256_add_epi16(y_g1, b_c_hi);
+        let mut r_high1 = _mm256_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm256_adds_epi16(y_g1, b_c_hi);
         let mut g_high1 = _mm256_sub_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm256_unpacklo_epi8(y_values0, _mm256_setzero_si256());
@@ -139,12 +139,12 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm256_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm256_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl0, b_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl0, b_c_lo);
         let mut g_low0 = _mm256_sub_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm256_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm256_add_epi16(y_gl1, b_c_lo);
+        let mut r_low1 = _mm256_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm256_adds_epi16(y_gl1, b_c_lo);
         let mut g_low1 = _mm256_sub_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
@@ -249,12 +249,12 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm256_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm256_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm256_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_g0, b_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_g0, b_c_hi);
         let mut g_high0 = _mm256_sub_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm256_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm256_add_epi16(y_g1, b_c_hi);
+        let mut r_high1 = _mm256_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm256_adds_epi16(y_g1, b_c_hi);
         let mut g_high1 = _mm256_sub_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm256_unpacklo_epi8(y_values0, _mm256_setzero_si256());
@@ -263,12 +263,12 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm256_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm256_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl0, b_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl0, b_c_lo);
         let mut g_low0 = _mm256_sub_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm256_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm256_add_epi16(y_gl1, b_c_lo);
+        let mut r_low1 = _mm256_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm256_adds_epi16(y_gl1, b_c_lo);
         let mut g_low1 = _mm256_sub_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
diff --git a/src/avx512bw/yuv_nv_to_rgba_fast420.rs b/src/avx512bw/yuv_nv_to_rgba_fast420.rs
index 2270f4b..0f2ed1d 100644
--- a/src/avx512bw/yuv_nv_to_rgba_fast420.rs
+++ b/src/avx512bw/yuv_nv_to_rgba_fast420.rs
@@ -177,12 +177,12 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let r_c_hi = _mm512_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm512_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm512_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm512_add_epi16(y_g0, b_c_hi);
+        let mut r_high0 = _mm512_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm512_adds_epi16(y_g0, b_c_hi);
         let mut g_high0 = _mm512_sub_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm512_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm512_add_epi16(y_g1, b_c_hi);
+        let mut r_high1 = _mm512_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm512_adds_epi16(y_g1, b_c_hi);
         let mut g_high1 = _mm512_sub_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm512_unpacklo_epi8(y_values0, _mm512_setzero_si512());
@@ -191,12 +191,12 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let y_gl0 = _mm512_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm512_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm512_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm512_add_epi16(y_gl0, b_c_lo);
+        let mut r_low0 = _mm512_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm512_adds_epi16(y_gl0, b_c_lo);
         let mut g_low0 = _mm512_sub_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm512_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm512_add_epi16(y_gl1, b_c_lo);
+        let mut r_low1 = _mm512_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm512_adds_epi16(y_gl1, b_c_lo);
         let mut g_low1 = _mm512_sub_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm512_srai_epi16::<6>(r_low0);
@@ -301,12 +301,12 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let r_c_hi = _mm512_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm512_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm512_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm512_add_epi16(y_g0, b_c_hi);
+        let mut r_high0 = _mm512_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm512_adds_epi16(y_g0, b_c_hi);
         let mut g_high0 = _mm512_sub_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm512_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm512_add_epi16(y_g1, b_c_hi);
+        let mut r_high1 = _mm512_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm512_adds_epi16(y_g1, b_c_hi);
         let mut g_high1 = _mm512_sub_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm512_unpacklo_epi8(y_values0, _mm512_setzero_si512());
@@ -315,12 +315,12 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let y_gl0 = _mm512_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm512_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm512_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm512_add_epi16(y_gl0, b_c_lo);
+        let mut r_low0 = _mm512_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm512_adds_epi16(y_gl0, b_c_lo);
         let mut g_low0 = _mm512_sub_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm512_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm512_add_epi16(y_gl1, b_c_lo);
+        let mut r_low1 = _mm512_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm512_adds_epi16(y_gl1, b_c_lo);
         let mut g_low1 = _mm512_sub_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm512_srai_epi16::<6>(r_low0);
diff --git a/src/sse/yuv_nv_to_rgba_fast.rs b/src/sse/yuv_nv_to_rgba_fast.rs
index fea2de2..a58c84c 100644
--- a/src/sse/yuv_nv_to_rgba_fast.rs
+++ b/src/sse/yuv_nv_to_rgba_fast.rs
@@ -151,12 +151,12 @@ unsafe fn sse_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_gh, b_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_gh, b_c_hi);
         let mut g_high0 = _mm_sub_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl, b_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl, b_c_lo);
         let mut g_low0 = _mm_sub_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
@@ -265,12 +265,12 @@ unsafe fn sse_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_gh, b_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_gh, b_c_hi);
         let mut g_high0 = _mm_sub_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl, b_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl, b_c_lo);
         let mut g_low0 = _mm_sub_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
diff --git a/src/sse/yuv_nv_to_rgba_fast420.rs b/src/sse/yuv_nv_to_rgba_fast420.rs
index d58f035..13c3dc7 100644
--- a/src/sse/yuv_nv_to_rgba_fast420.rs
+++ b/src/sse/yuv_nv_to_rgba_fast420.rs
@@ -121,12 +121,12 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_g0, b_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_g0, b_c_hi);
         let mut g_high0 = _mm_sub_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm_add_epi16(y_g1, b_c_hi);
+        let mut r_high1 = _mm_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm_adds_epi16(y_g1, b_c_hi);
         let mut g_high1 = _mm_sub_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm_unpacklo_epi8(y_values0, _mm_setzero_si128());
@@ -135,12 +135,12 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl0, b_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl0, b_c_lo);
         let mut g_low0 = _mm_sub_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm_add_epi16(y_gl1, b_c_lo);
+        let mut r_low1 = _mm_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm_adds_epi16(y_gl1, b_c_lo);
         let mut g_low1 = _mm_sub_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
@@ -245,12 +245,12 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_g0, b_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_g0, b_c_hi);
         let mut g_high0 = _mm_sub_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm_add_epi16(y_g1, b_c_hi);
+        let mut r_high1 = _mm_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm_adds_epi16(y_g1, b_c_hi);
         let mut g_high1 = _mm_sub_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm_unpacklo_epi8(y_values0, _mm_setzero_si128());
@@ -259,12 +259,12 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl0, b_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl0, b_c_lo);
         let mut g_low0 = _mm_sub_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm_add_epi16(y_gl1, b_c_lo);
+        let mut r_low1 = _mm_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm_adds_epi16(y_gl1, b_c_lo);
         let mut g_low1 = _mm_sub_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
-- 
2.43.0


From 7ba8b77df9b3c575fc443e88464c803a32f9b157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 11/63] fix: widen the chroma of SSE high bit-depth NV to RGB
 per sample

---
 src/sse/yuv_nv_p16_to_rgb.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sse/yuv_nv_p16_to_rgb.rs b/src/sse/yuv_nv_p16_to_rgb.rs
index a3d77f3..a9d68a1 100644
--- a/src/sse/yuv_nv_p16_to_rgb.rs
+++ b/src/sse/yuv_nv_p16_to_rgb.rs
@@ -177,8 +177,8 @@ unsafe fn sse_yuv_nv_p16_to_rgba_row_impl<
                 let u_values_c = _mm_sub_epi16(u_vl, uv_corr);
                 let v_values_c = _mm_sub_epi16(v_vl, uv_corr);
 
-                let u_values_32 = _mm_unpacklo_epi32(u_values_c, _mm_setzero_si128());
-                let v_values_32 = _mm_unpacklo_epi32(v_values_c, _mm_setzero_si128());
+                let u_values_32 = _mm_unpacklo_epi16(u_values_c, _mm_setzero_si128());
+                let v_values_32 = _mm_unpacklo_epi16(v_values_c, _mm_setzero_si128());
 
                 u_high = _mm_unpackhi_epi32(u_values_32, u_values_32);
                 v_high = _mm_unpackhi_epi32(v_values_32, v_values_32);
@@ -213,8 +213,8 @@ unsafe fn sse_yuv_nv_p16_to_rgba_row_impl<
                 let v_values_c = _mm_sub_epi16(v_vl, uv_corr_q);
                 u_high = _mm_unpackhi_epi16(u_values_c, zeros);
                 v_high = _mm_unpackhi_epi16(v_values_c, zeros);
-                u_low = _mm_unpacklo_epi32(u_values_c, _mm_setzero_si128());
-                v_low = _mm_unpacklo_epi32(v_values_c, _mm_setzero_si128());
+                u_low = _mm_unpacklo_epi16(u_values_c, _mm_setzero_si128());
+                v_low = _mm_unpacklo_epi16(v_values_c, _mm_setzero_si128());
             }
         }
 
-- 
2.43.0


From d2f3ece63052bc7e064cda0dd754fb9dbf746702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 12/63] fix: 12-bit NV to AR30/RA30 clamps to the 10 bits of a
 channel

---
 src/yuv_nv_p10_to_ar30.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/yuv_nv_p10_to_ar30.rs b/src/yuv_nv_p10_to_ar30.rs
index eb4e8dc..98cedc6 100644
--- a/src/yuv_nv_p10_to_ar30.rs
+++ b/src/yuv_nv_p10_to_ar30.rs
@@ -224,9 +224,9 @@ fn yuv_nv_p10_to_image_impl_d<
                 cb_value -= bias_uv;
                 cr_value -= bias_uv;
 
-                let r_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-                let b_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-                let g_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                let r_p0 = qrshr::<BACK_SHIFT, 10>(y_value0 + cr_coef * cr_value);
+                let b_p0 = qrshr::<BACK_SHIFT, 10>(y_value0 + cb_coef * cb_value);
+                let g_p0 = qrshr::<BACK_SHIFT, 10>(
                     y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -242,9 +242,9 @@ fn yuv_nv_p10_to_image_impl_d<
 
                 let y_value1: i32 = (y_vl1 - bias_y) * y_coef;
 
-                let r_p1 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value1 + cr_coef * cr_value);
-                let b_p1 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value1 + cb_coef * cb_value);
-                let g_p1 = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                let r_p1 = qrshr::<BACK_SHIFT, 10>(y_value1 + cr_coef * cr_value);
+                let b_p1 = qrshr::<BACK_SHIFT, 10>(y_value1 + cb_coef * cb_value);
+                let g_p1 = qrshr::<BACK_SHIFT, 10>(
                     y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -277,9 +277,9 @@ fn yuv_nv_p10_to_image_impl_d<
                 cb_value -= bias_uv;
                 cr_value -= bias_uv;
 
-                let r_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-                let b_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-                let g_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                let r_p0 = qrshr::<BACK_SHIFT, 10>(y_value0 + cr_coef * cr_value);
+                let b_p0 = qrshr::<BACK_SHIFT, 10>(y_value0 + cb_coef * cb_value);
+                let g_p0 = qrshr::<BACK_SHIFT, 10>(
                     y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -347,9 +347,9 @@ fn yuv_nv_p10_to_image_impl_d<
                     cb_value -= bias_uv;
                     cr_value -= bias_uv;
 
-                    let r_p = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value + cr_coef * cr_value);
-                    let b_p = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value + cb_coef * cb_value);
-                    let g_p = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                    let r_p = qrshr::<BACK_SHIFT, 10>(y_value + cr_coef * cr_value);
+                    let b_p = qrshr::<BACK_SHIFT, 10>(y_value + cb_coef * cb_value);
+                    let g_p = qrshr::<BACK_SHIFT, 10>(
                         y_value - g_coef_1 * cr_value - g_coef_2 * cb_value,
                     );
 
-- 
2.43.0


From e9f3b155852e838cd83c974031e2900285d96c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 13/63] fix: planar high bit-depth to AR30/RA30 reduces to 10
 bits and leaves the row padding alone

---
 src/yuv_p16_ar30.rs | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/yuv_p16_ar30.rs b/src/yuv_p16_ar30.rs
index f30c8d6..e8884b9 100644
--- a/src/yuv_p16_ar30.rs
+++ b/src/yuv_p16_ar30.rs
@@ -38,6 +38,17 @@ use rayon::iter::{IndexedParallelIterator, ParallelIterator};
 #[cfg(feature = "rayon")]
 use rayon::prelude::{ParallelSlice, ParallelSliceMut};
 
+/// Rounds to the 10 bits of an AR30 channel
+#[inline(always)]
+fn qrshr_ar30<const BIT_DEPTH: usize>(val: i32) -> i32 {
+    match BIT_DEPTH {
+        10 => qrshr::<14, 10>(val),
+        12 => qrshr::<16, 10>(val),
+        14 => qrshr::<18, 10>(val),
+        _ => unreachable!(),
+    }
+}
+
 fn yuv_p16_to_image_ar30<
     const AR30_LAYOUT: usize,
     const AR30_STORE: usize,
@@ -61,7 +72,6 @@ fn yuv_p16_to_image_ar30<
     check_rgba_destination(rgba, rgba_stride, image.width, image.height, 4)?;
 
     let kr_kb = matrix.get_kr_kb();
-    const AR30_DEPTH: usize = 10;
     const PRECISION: i32 = 14;
     let i_transform = search_inverse_transform(
         PRECISION,
@@ -97,9 +107,9 @@ fn yuv_p16_to_image_ar30<
             let cb_value = to_ne::<ENDIANNESS, BYTES_POSITION>(u_src, msb_shift) as i32 - bias_uv;
             let cr_value = to_ne::<ENDIANNESS, BYTES_POSITION>(v_src, msb_shift) as i32 - bias_uv;
 
-            let r0 = qrshr::<PRECISION, AR30_DEPTH>(y_value0 + cr_coef * cr_value);
-            let b0 = qrshr::<PRECISION, AR30_DEPTH>(y_value0 + cb_coef * cb_value);
-            let g0 = qrshr::<PRECISION, AR30_DEPTH>(
+            let r0 = qrshr_ar30::<BIT_DEPTH>(y_value0 + cr_coef * cr_value);
+            let b0 = qrshr_ar30::<BIT_DEPTH>(y_value0 + cb_coef * cb_value);
+            let g0 = qrshr_ar30::<BIT_DEPTH>(
                 y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
             );
 
@@ -114,10 +124,10 @@ fn yuv_p16_to_image_ar30<
             let y_value1 =
                 (to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[1], msb_shift) as i32 - bias_y) * y_coef;
 
-            let r1 = qrshr::<PRECISION, BIT_DEPTH>(y_value1 + cr_coef * cr_value);
-            let b1 = qrshr::<PRECISION, BIT_DEPTH>(y_value1 + cb_coef * cb_value);
+            let r1 = qrshr_ar30::<BIT_DEPTH>(y_value1 + cr_coef * cr_value);
+            let b1 = qrshr_ar30::<BIT_DEPTH>(y_value1 + cb_coef * cb_value);
             let g1 =
-                qrshr::<PRECISION, BIT_DEPTH>(y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value);
+                qrshr_ar30::<BIT_DEPTH>(y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value);
 
             let pixel1 = ar30_layout.pack::<AR30_STORE>(r1, g1, b1).to_ne_bytes();
             rgba_2[4] = pixel1[0];
@@ -139,10 +149,10 @@ fn yuv_p16_to_image_ar30<
                 - bias_uv;
             let rgba = rgba.chunks_exact_mut(4).last().unwrap();
 
-            let r0 = qrshr::<PRECISION, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-            let b0 = qrshr::<PRECISION, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
+            let r0 = qrshr_ar30::<BIT_DEPTH>(y_value0 + cr_coef * cr_value);
+            let b0 = qrshr_ar30::<BIT_DEPTH>(y_value0 + cb_coef * cb_value);
             let g0 =
-                qrshr::<PRECISION, BIT_DEPTH>(y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value);
+                qrshr_ar30::<BIT_DEPTH>(y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value);
             let pixel0 = ar30_layout.pack::<AR30_STORE>(r0, g0, b0).to_ne_bytes();
             rgba[0] = pixel0[0];
             rgba[1] = pixel0[1];
@@ -172,7 +182,7 @@ fn yuv_p16_to_image_ar30<
         iter.for_each(|(((rgba, y_plane), u_plane), v_plane)| {
             for (((rgba, &y_src), &u_src), &v_src) in rgba
                 .chunks_exact_mut(4)
-                .zip(y_plane.iter())
+                .zip(y_plane[0..image.width as usize].iter())
                 .zip(u_plane.iter())
                 .zip(v_plane.iter())
             {
@@ -184,9 +194,9 @@ fn yuv_p16_to_image_ar30<
                 let cr_value =
                     to_ne::<ENDIANNESS, BYTES_POSITION>(v_src, msb_shift) as i32 - bias_uv;
 
-                let r = qrshr::<PRECISION, BIT_DEPTH>(y_value + cr_coef * cr_value);
-                let b = qrshr::<PRECISION, BIT_DEPTH>(y_value + cb_coef * cb_value);
-                let g = qrshr::<PRECISION, BIT_DEPTH>(
+                let r = qrshr_ar30::<BIT_DEPTH>(y_value + cr_coef * cr_value);
+                let b = qrshr_ar30::<BIT_DEPTH>(y_value + cb_coef * cb_value);
+                let g = qrshr_ar30::<BIT_DEPTH>(
                     y_value - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
-- 
2.43.0


From 8d687aaeff2e7ecc97f8a89a1fb19ed351abcefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 14/63] fix: high bit-depth RGB to 4:2:0 computes the bottom
 right luma from its own pixel

---
 src/rgb16_to_yuv_p16.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index ccd974d..c9a618e 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -642,7 +642,7 @@ fn rgbx_to_yuv_ant<
             let r11 = rgba11[src_chans.get_r_channel_offset()] as i32;
             let g11 = rgba11[src_chans.get_g_channel_offset()] as i32;
             let b11 = rgba11[src_chans.get_b_channel_offset()] as i32;
-            let y_11 = (r01 * transform.yr + g01 * transform.yg + b01 * transform.yb + bias_y)
+            let y_11 = (r11 * transform.yr + g11 * transform.yg + b11 * transform.yb + bias_y)
                 >> PRECISION;
             y_dst1[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_11);
 
-- 
2.43.0


From 6485a726700e34aaaf03d76f06d64dd17771aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 15/63] fix: high bit-depth RGB to 4:2:2 leaves the row padding
 alone and finds the last column

---
 src/rgb16_to_yuv_p16.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index c9a618e..fac1ef2 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -517,7 +517,7 @@ fn rgbx_to_yuv_ant<
     let process_halved_chroma_row = |y_plane: &mut [u16],
                                      u_plane: &mut [u16],
                                      v_plane: &mut [u16],
-                                     rgba| {
+                                     rgba: &[u16]| {
         let processed_offset = handler.handle_row(
             y_plane,
             u_plane,
@@ -780,7 +780,12 @@ fn rgbx_to_yuv_ant<
         }
 
         iter.for_each(|(((y_plane, u_plane), v_plane), rgba)| {
-            process_halved_chroma_row(y_plane, u_plane, v_plane, rgba);
+            process_halved_chroma_row(
+                &mut y_plane[0..image.width as usize],
+                &mut u_plane[0..(image.width as usize).div_ceil(2)],
+                &mut v_plane[0..(image.width as usize).div_ceil(2)],
+                &rgba[0..image.width as usize * channels],
+            );
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
         let iter;
-- 
2.43.0


From 10f0f3d9463f60492e80ff211f196aa90d28b135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 16/63] fix: RGB16 to 16-bit planar YUV saturates white instead
 of overflowing

---
 src/avx2/rgb_to_yuv_p16_420_d16.rs | 16 ++++++------
 src/avx2/rgb_to_yuv_p16_d16.rs     |  8 +++---
 src/rgb16_to_yuv_p16.rs            | 40 +++++++++++++++---------------
 3 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/avx2/rgb_to_yuv_p16_420_d16.rs b/src/avx2/rgb_to_yuv_p16_420_d16.rs
index cb4a3e9..ddc0cfc 100644
--- a/src/avx2/rgb_to_yuv_p16_420_d16.rs
+++ b/src/avx2/rgb_to_yuv_p16_420_d16.rs
@@ -252,10 +252,10 @@ unsafe fn avx_rgba_to_yuv_impl_d16<
         y1_vl0 = _mm256_add_epi32(y1_vl0, y1_vl0_2);
         y1_vl1 = _mm256_add_epi32(y1_vl1, y1_vl1_2);
 
-        y0_vl0 = _mm256_srai_epi32::<PRECISION>(y0_vl0);
-        y0_vl1 = _mm256_srai_epi32::<PRECISION>(y0_vl1);
-        y1_vl0 = _mm256_srai_epi32::<PRECISION>(y1_vl0);
-        y1_vl1 = _mm256_srai_epi32::<PRECISION>(y1_vl1);
+        y0_vl0 = _mm256_srli_epi32::<PRECISION>(y0_vl0);
+        y0_vl1 = _mm256_srli_epi32::<PRECISION>(y0_vl1);
+        y1_vl0 = _mm256_srli_epi32::<PRECISION>(y1_vl0);
+        y1_vl1 = _mm256_srli_epi32::<PRECISION>(y1_vl1);
 
         let mut y0_vl = _mm256_packus_epi32(y0_vl0, y0_vl1);
         let mut y1_vl = _mm256_packus_epi32(y1_vl0, y1_vl1);
@@ -446,10 +446,10 @@ unsafe fn avx_rgba_to_yuv_impl_d16<
         y1_vl0 = _mm256_add_epi32(y1_vl0, y_bias);
         y1_vl1 = _mm256_add_epi32(y1_vl1, y_bias);
 
-        y0_vl0 = _mm256_srai_epi32::<PRECISION>(y0_vl0);
-        y0_vl1 = _mm256_srai_epi32::<PRECISION>(y0_vl1);
-        y1_vl0 = _mm256_srai_epi32::<PRECISION>(y1_vl0);
-        y1_vl1 = _mm256_srai_epi32::<PRECISION>(y1_vl1);
+        y0_vl0 = _mm256_srli_epi32::<PRECISION>(y0_vl0);
+        y0_vl1 = _mm256_srli_epi32::<PRECISION>(y0_vl1);
+        y1_vl0 = _mm256_srli_epi32::<PRECISION>(y1_vl0);
+        y1_vl1 = _mm256_srli_epi32::<PRECISION>(y1_vl1);
 
         let mut y0_vl = _mm256_packus_epi32(y0_vl0, y0_vl1);
         let mut y1_vl = _mm256_packus_epi32(y1_vl0, y1_vl1);
diff --git a/src/avx2/rgb_to_yuv_p16_d16.rs b/src/avx2/rgb_to_yuv_p16_d16.rs
index 3c9b03c..4068208 100644
--- a/src/avx2/rgb_to_yuv_p16_d16.rs
+++ b/src/avx2/rgb_to_yuv_p16_d16.rs
@@ -230,8 +230,8 @@ unsafe fn avx_rgba_to_yuv_d16_impl<
         y_vl0 = _mm256_add_epi32(y_vl0, y_vl0_2);
         y_vl1 = _mm256_add_epi32(y_vl1, y_vl1_2);
 
-        y_vl0 = _mm256_srai_epi32::<PRECISION>(y_vl0);
-        y_vl1 = _mm256_srai_epi32::<PRECISION>(y_vl1);
+        y_vl0 = _mm256_srli_epi32::<PRECISION>(y_vl0);
+        y_vl1 = _mm256_srli_epi32::<PRECISION>(y_vl1);
 
         let mut y_vl = _mm256_packus_epi32(y_vl0, y_vl1);
 
@@ -434,8 +434,8 @@ unsafe fn avx_rgba_to_yuv_d16_impl<
         y_vl0 = _mm256_add_epi32(y_vl0, y_vl0_2);
         y_vl1 = _mm256_add_epi32(y_vl1, y_vl1_2);
 
-        y_vl0 = _mm256_srai_epi32::<PRECISION>(y_vl0);
-        y_vl1 = _mm256_srai_epi32::<PRECISION>(y_vl1);
+        y_vl0 = _mm256_srli_epi32::<PRECISION>(y_vl0);
+        y_vl1 = _mm256_srli_epi32::<PRECISION>(y_vl1);
 
         let mut y_vl = _mm256_packus_epi32(y_vl0, y_vl1);
 
diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index fac1ef2..ffd54b4 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -48,6 +48,7 @@ fn transform_integer<const ENDIANNESS: u8, const BYTES_POSITION: u8, const BIT_D
     let endianness: YuvEndianness = ENDIANNESS.into();
     let bytes_position: YuvBytesPacking = BYTES_POSITION.into();
     let packing: i32 = 16 - BIT_DEPTH as i32;
+    let v = v.clamp(0, (1 << BIT_DEPTH) - 1);
     let packed_bytes = match bytes_position {
         YuvBytesPacking::MostSignificantBytes => v << packing,
         YuvBytesPacking::LeastSignificantBytes => v,
@@ -514,6 +515,15 @@ fn rgbx_to_yuv_ant<
     let bias_y = range.bias_y as i32 * (1 << PRECISION) + rnd_const;
     let bias_uv = range.bias_uv as i32 * (1 << PRECISION) + rnd_const;
 
+    // The weights may sum up to slightly above one, which does not fit `i32` for 16-bit white.
+    let luma = |r: i32, g: i32, b: i32| -> i32 {
+        let y = r as u32 * transform.yr as u32
+            + g as u32 * transform.yg as u32
+            + b as u32 * transform.yb as u32
+            + bias_y as u32;
+        (y >> PRECISION) as i32
+    };
+
     let process_halved_chroma_row = |y_plane: &mut [u16],
                                      u_plane: &mut [u16],
                                      v_plane: &mut [u16],
@@ -539,15 +549,13 @@ fn rgbx_to_yuv_ant<
                 let r0 = rgba[src_chans.get_r_channel_offset()] as i32;
                 let g0 = rgba[src_chans.get_g_channel_offset()] as i32;
                 let b0 = rgba[src_chans.get_b_channel_offset()] as i32;
-                let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
-                    >> PRECISION;
+                let y_0 = luma(r0, g0, b0);
                 y_dst[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_0);
 
                 let r1 = rgba[channels + src_chans.get_r_channel_offset()] as i32;
                 let g1 = rgba[channels + src_chans.get_g_channel_offset()] as i32;
                 let b1 = rgba[channels + src_chans.get_b_channel_offset()] as i32;
-                let y_1 = (r1 * transform.yr + g1 * transform.yg + b1 * transform.yb + bias_y)
-                    >> PRECISION;
+                let y_1 = luma(r1, g1, b1);
                 y_dst[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_1);
 
                 let r = (r0 + r1 + 1) >> 1;
@@ -572,8 +580,7 @@ fn rgbx_to_yuv_ant<
                 let u_last = u_plane.last_mut().unwrap();
                 let v_last = v_plane.last_mut().unwrap();
 
-                let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
-                    >> PRECISION;
+                let y_0 = luma(r0, g0, b0);
                 *y_last = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_0);
 
                 let cb =
@@ -619,31 +626,27 @@ fn rgbx_to_yuv_ant<
             let r00 = rgba0[src_chans.get_r_channel_offset()] as i32;
             let g00 = rgba0[src_chans.get_g_channel_offset()] as i32;
             let b00 = rgba0[src_chans.get_b_channel_offset()] as i32;
-            let y_00 = (r00 * transform.yr + g00 * transform.yg + b00 * transform.yb + bias_y)
-                >> PRECISION;
+            let y_00 = luma(r00, g00, b00);
             y_dst0[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_00);
 
             let rgba01 = &rgba0[channels..channels * 2];
             let r01 = rgba01[src_chans.get_r_channel_offset()] as i32;
             let g01 = rgba01[src_chans.get_g_channel_offset()] as i32;
             let b01 = rgba01[src_chans.get_b_channel_offset()] as i32;
-            let y_01 = (r01 * transform.yr + g01 * transform.yg + b01 * transform.yb + bias_y)
-                >> PRECISION;
+            let y_01 = luma(r01, g01, b01);
             y_dst0[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_01);
 
             let r10 = rgba1[src_chans.get_r_channel_offset()] as i32;
             let g10 = rgba1[src_chans.get_g_channel_offset()] as i32;
             let b10 = rgba1[src_chans.get_b_channel_offset()] as i32;
-            let y_10 = (r10 * transform.yr + g10 * transform.yg + b10 * transform.yb + bias_y)
-                >> PRECISION;
+            let y_10 = luma(r10, g10, b10);
             y_dst1[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_10);
 
             let rgba11 = &rgba1[channels..channels * 2];
             let r11 = rgba11[src_chans.get_r_channel_offset()] as i32;
             let g11 = rgba11[src_chans.get_g_channel_offset()] as i32;
             let b11 = rgba11[src_chans.get_b_channel_offset()] as i32;
-            let y_11 = (r11 * transform.yr + g11 * transform.yg + b11 * transform.yb + bias_y)
-                >> PRECISION;
+            let y_11 = luma(r11, g11, b11);
             y_dst1[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_11);
 
             let r = (r00 + r01 + r10 + r11 + 2) >> 2;
@@ -674,12 +677,10 @@ fn rgbx_to_yuv_ant<
             let u_last = u_plane.last_mut().unwrap();
             let v_last = v_plane.last_mut().unwrap();
 
-            let y_0 =
-                (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y) >> PRECISION;
+            let y_0 = luma(r0, g0, b0);
             *y0_last = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_0);
 
-            let y_1 =
-                (r1 * transform.yr + g1 * transform.yg + b1 * transform.yb + bias_y) >> PRECISION;
+            let y_1 = luma(r1, g1, b1);
             *y1_last = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_1);
 
             let r = (r0 + r1 + 1) >> 1;
@@ -745,8 +746,7 @@ fn rgbx_to_yuv_ant<
                     let r0 = rgba[src_chans.get_r_channel_offset()] as i32;
                     let g0 = rgba[src_chans.get_g_channel_offset()] as i32;
                     let b0 = rgba[src_chans.get_b_channel_offset()] as i32;
-                    let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
-                        >> PRECISION;
+                    let y_0 = luma(r0, g0, b0);
                     *y_dst = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_0);
 
                     let cb =
-- 
2.43.0


From db47c74fe98fa521531097c4740e46f50a9e419e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 17/63] fix: high bit-depth RGB to 4:2:0 NV with an odd width
 writes the last luma of the bottom row

---
 src/rgb_to_nv_p16.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rgb_to_nv_p16.rs b/src/rgb_to_nv_p16.rs
index dfb28b7..c91c9c2 100644
--- a/src/rgb_to_nv_p16.rs
+++ b/src/rgb_to_nv_p16.rs
@@ -189,6 +189,7 @@ where
             let rgba1 = &rgba1[0..channels];
             let uv_dst = uv_dst.chunks_exact_mut(2).last().unwrap();
             let y_dst0 = y_dst0.chunks_exact_mut(2).into_remainder();
+            let y_dst1 = y_dst1.chunks_exact_mut(2).into_remainder();
 
             let r0 = rgba0[src_chans.get_r_channel_offset()] as i32;
             let g0 = rgba0[src_chans.get_g_channel_offset()] as i32;
-- 
2.43.0


From 6040809c114dc9dbf7e1d5ba16edd2320d79dc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 18/63] fix: RGB16 to P016/P216 saturates white instead of
 overflowing

---
 src/rgb_to_nv_p16.rs | 70 +++++++++++++-------------------------------
 1 file changed, 20 insertions(+), 50 deletions(-)

diff --git a/src/rgb_to_nv_p16.rs b/src/rgb_to_nv_p16.rs
index c91c9c2..7735aab 100644
--- a/src/rgb_to_nv_p16.rs
+++ b/src/rgb_to_nv_p16.rs
@@ -47,6 +47,7 @@ fn transform_integer<const ENDIANNESS: u8, const BYTES_POSITION: u8, const BIT_D
     let endianness: YuvEndianness = ENDIANNESS.into();
     let bytes_position: YuvBytesPacking = BYTES_POSITION.into();
     let packing: i32 = 16 - BIT_DEPTH as i32;
+    let v = v.clamp(0, (1 << BIT_DEPTH) - 1);
     let packed_bytes = match bytes_position {
         YuvBytesPacking::MostSignificantBytes => v << packing,
         YuvBytesPacking::LeastSignificantBytes => v,
@@ -97,6 +98,15 @@ where
     let bias_y = range.bias_y as i32 * (1 << PRECISION) + ROUNDING_CONST_BIAS;
     let bias_uv = range.bias_uv as i32 * (1 << PRECISION) + ROUNDING_CONST_BIAS;
 
+    // The weights may sum up to slightly above one, which does not fit `i32` for 16-bit white.
+    let luma = |r: i32, g: i32, b: i32| -> i32 {
+        let yr: i32 = transform.yr.as_();
+        let yg: i32 = transform.yg.as_();
+        let yb: i32 = transform.yb.as_();
+        let y = r as u32 * yr as u32 + g as u32 * yg as u32 + b as u32 * yb as u32 + bias_y as u32;
+        (y >> PRECISION) as i32
+    };
+
     let width = image.width;
 
     let process_double_row = |y_dst0: &mut [u16],
@@ -117,11 +127,7 @@ where
             let g00 = rgba00[src_chans.get_g_channel_offset()] as i32;
             let b00 = rgba00[src_chans.get_b_channel_offset()] as i32;
 
-            let y_00 = (r00 * transform.yr.as_()
-                + g00 * transform.yg.as_()
-                + b00 * transform.yb.as_()
-                + bias_y)
-                >> PRECISION;
+            let y_00 = luma(r00, g00, b00);
             y_dst0[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_00);
 
             let rgba01 = &rgba0[channels..channels * 2];
@@ -130,11 +136,7 @@ where
             let g01 = rgba01[src_chans.get_g_channel_offset()] as i32;
             let b01 = rgba01[src_chans.get_b_channel_offset()] as i32;
 
-            let y_01 = (r01 * transform.yr.as_()
-                + g01 * transform.yg.as_()
-                + b01 * transform.yb.as_()
-                + bias_y)
-                >> PRECISION;
+            let y_01 = luma(r01, g01, b01);
             y_dst0[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_01);
 
             let rgba01 = &rgba1[0..channels];
@@ -142,11 +144,7 @@ where
             let g10 = rgba01[src_chans.get_g_channel_offset()] as i32;
             let b10 = rgba01[src_chans.get_b_channel_offset()] as i32;
 
-            let y_10 = (r10 * transform.yr.as_()
-                + g10 * transform.yg.as_()
-                + b10 * transform.yb.as_()
-                + bias_y)
-                >> PRECISION;
+            let y_10 = luma(r10, g10, b10);
             y_dst1[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_10);
 
             let rgba11 = &rgba1[channels..channels * 2];
@@ -155,11 +153,7 @@ where
             let g11 = rgba11[src_chans.get_g_channel_offset()] as i32;
             let b11 = rgba11[src_chans.get_b_channel_offset()] as i32;
 
-            let y_11 = (r11 * transform.yr.as_()
-                + g11 * transform.yg.as_()
-                + b11 * transform.yb.as_()
-                + bias_y)
-                >> PRECISION;
+            let y_11 = luma(r11, g11, b11);
             y_dst1[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_11);
 
             let r = (r00 + r01 + r10 + r11 + 2) >> 2;
@@ -203,18 +197,10 @@ where
             let g = (g0 + g1 + 1) >> 1;
             let b = (b0 + b1 + 1) >> 1;
 
-            let y_0 = (r0 * transform.yr.as_()
-                + g0 * transform.yg.as_()
-                + b0 * transform.yb.as_()
-                + bias_y)
-                >> PRECISION;
+            let y_0 = luma(r0, g0, b0);
             y_dst0[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_0);
 
-            let y_1 = (r1 * transform.yr.as_()
-                + g1 * transform.yg.as_()
-                + b1 * transform.yb.as_()
-                + bias_y)
-                >> PRECISION;
+            let y_1 = luma(r1, g1, b1);
             y_dst1[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_1);
 
             let cb = (r * transform.cb_r.as_()
@@ -244,11 +230,7 @@ where
             let r0 = rgba0[src_chans.get_r_channel_offset()] as i32;
             let g0 = rgba0[src_chans.get_g_channel_offset()] as i32;
             let b0 = rgba0[src_chans.get_b_channel_offset()] as i32;
-            let y_0 = (r0 * transform.yr.as_()
-                + g0 * transform.yg.as_()
-                + b0 * transform.yb.as_()
-                + bias_y)
-                >> PRECISION;
+            let y_0 = luma(r0, g0, b0);
             y_dst[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_0);
 
             let rgba1 = &rgba[channels..channels * 2];
@@ -257,11 +239,7 @@ where
             let g1 = rgba1[src_chans.get_g_channel_offset()] as i32;
             let b1 = rgba1[src_chans.get_b_channel_offset()] as i32;
 
-            let y_1 = (r1 * transform.yr.as_()
-                + g1 * transform.yg.as_()
-                + b1 * transform.yb.as_()
-                + bias_y)
-                >> PRECISION;
+            let y_1 = luma(r1, g1, b1);
             y_dst[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_1);
 
             let r = (r0 + r1 + 1) >> 1;
@@ -293,11 +271,7 @@ where
             let r0 = rgba[src_chans.get_r_channel_offset()] as i32;
             let g0 = rgba[src_chans.get_g_channel_offset()] as i32;
             let b0 = rgba[src_chans.get_b_channel_offset()] as i32;
-            let y_0 = (r0 * transform.yr.as_()
-                + g0 * transform.yg.as_()
-                + b0 * transform.yb.as_()
-                + bias_y)
-                >> PRECISION;
+            let y_0 = luma(r0, g0, b0);
             y_dst[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_0);
 
             let cb = (r0 * transform.cb_r.as_()
@@ -348,11 +322,7 @@ where
                 let r0 = rgba[src_chans.get_r_channel_offset()] as i32;
                 let g0 = rgba[src_chans.get_g_channel_offset()] as i32;
                 let b0 = rgba[src_chans.get_b_channel_offset()] as i32;
-                let y_0 = (r0 * transform.yr.as_()
-                    + g0 * transform.yg.as_()
-                    + b0 * transform.yb.as_()
-                    + bias_y)
-                    >> PRECISION;
+                let y_0 = luma(r0, g0, b0);
                 *y_dst = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_0);
                 let cb = (r0 * transform.cb_r.as_()
                     + g0 * transform.cb_g.as_()
-- 
2.43.0


From 6bc378f98b0d1c32ea7ce107892560775ee5b6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 19/63] fix: RGB16 to P216 is 4:2:2

---
 src/rgb_to_nv_p16.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rgb_to_nv_p16.rs b/src/rgb_to_nv_p16.rs
index 7735aab..da1bc25 100644
--- a/src/rgb_to_nv_p16.rs
+++ b/src/rgb_to_nv_p16.rs
@@ -582,7 +582,7 @@ d_cnv!(
 d_cnv!(
     rgba16_to_p216,
     YuvSourceChannels::Rgba,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "P216",
     "RGBA",
     16,
@@ -591,7 +591,7 @@ d_cnv!(
 d_cnv!(
     rgb16_to_p216,
     YuvSourceChannels::Rgb,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "P216",
     "RGB",
     16,
-- 
2.43.0


From 3c4fdf2d0ff1d6086d5648e879f60034cb14711a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 20/63] fix: rgba12_to_i212_be is 4:2:2

---
 src/rgb16_to_yuv_p16.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index ffd54b4..253d1d7 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -1074,7 +1074,7 @@ d_cvn!(
 d_cvn!(
     rgba12_to_i212_be,
     YuvSourceChannels::Rgba,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "I212",
     "RGBA12",
     "rgba12",
-- 
2.43.0


From 220d0c6963c3bd960770f26b045ec02f42d2a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 21/63] fix: AVX-512 high bit-depth RGB to YUV stores the
 chroma of the last columns

---
 src/avx512bw/rgb_to_yuv_p16.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/avx512bw/rgb_to_yuv_p16.rs b/src/avx512bw/rgb_to_yuv_p16.rs
index 84adfe3..9ea1092 100644
--- a/src/avx512bw/rgb_to_yuv_p16.rs
+++ b/src/avx512bw/rgb_to_yuv_p16.rs
@@ -307,8 +307,6 @@ unsafe fn avx_rgba_to_yuv_impl<
         let diff = width - cx;
         assert!(diff <= 32);
         let mut src_buffer: [u16; 32 * 4] = [0; 32 * 4];
-        let mut u_buffer: [u16; 32] = [0; 32];
-        let mut v_buffer: [u16; 32] = [0; 32];
 
         // Replicate last item to one more position for subsampling
         if chroma_subsampling != YuvChromaSubsampling::Yuv444 && diff % 2 != 0 {
@@ -378,8 +376,16 @@ unsafe fn avx_rgba_to_yuv_impl<
                 cr_vl = _mm512_shuffle_epi8(cr_vl, big_endian_shuffle_flag);
             }
 
-            _mm512_mask_storeu_epi16(u_buffer.as_mut_ptr() as *mut _, mask, cb_vl);
-            _mm512_mask_storeu_epi16(v_buffer.as_mut_ptr() as *mut _, mask, cr_vl);
+            _mm512_mask_storeu_epi16(
+                u_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                mask,
+                cb_vl,
+            );
+            _mm512_mask_storeu_epi16(
+                v_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                mask,
+                cr_vl,
+            );
         } else {
             let r_values = _mm512_havg_epi16_epi32(r_values);
             let g_values = _mm512_havg_epi16_epi32(g_values);
@@ -408,8 +414,16 @@ unsafe fn avx_rgba_to_yuv_impl<
 
             let halved_mask = 0xffff_ffffu32 >> (32 - diff.div_ceil(2) as u32);
 
-            _mm512_mask_storeu_epi16(u_buffer.as_mut_ptr() as *mut _, halved_mask, cb_s);
-            _mm512_mask_storeu_epi16(v_buffer.as_mut_ptr() as *mut _, halved_mask, cr_s);
+            _mm512_mask_storeu_epi16(
+                u_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                halved_mask,
+                cb_s,
+            );
+            _mm512_mask_storeu_epi16(
+                v_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                halved_mask,
+                cr_s,
+            );
         }
 
         cx += diff;
-- 
2.43.0


From 5961043ae270daa31d7e421b8784017c4923d6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 22/63] fix: AVX2 RGB to gray converts all of the last 16
 pixels

---
 src/avx2/rgb_to_y.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/avx2/rgb_to_y.rs b/src/avx2/rgb_to_y.rs
index f1d6cb3..df0cef1 100644
--- a/src/avx2/rgb_to_y.rs
+++ b/src/avx2/rgb_to_y.rs
@@ -111,6 +111,11 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
             ORIGIN_CHANNELS,
         >(rgba.get_unchecked(px..).as_ptr());
 
+        // 16 pixels are in the lower lane, spread them over both of them
+        let r_values = _mm256_permute4x64_epi64::<0x50>(r_values);
+        let g_values = _mm256_permute4x64_epi64::<0x50>(g_values);
+        let b_values = _mm256_permute4x64_epi64::<0x50>(b_values);
+
         let rl = _mm256_unpacklo_epi8(r_values, r_values);
         let gl = _mm256_unpacklo_epi8(g_values, g_values);
         let bl = _mm256_unpacklo_epi8(b_values, b_values);
@@ -127,7 +132,10 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
 
         let y_l = _mm256_srli_epi16::<A_E>(_mm256_add_epi16(y_bias, _mm256_add_epi16(yrgc, bhy)));
 
-        let y_yuv = _mm256_packus_epi16(y_l, _mm256_setzero_si256());
+        let y_yuv = _mm256_permute4x64_epi64::<0xD8>(_mm256_packus_epi16(
+            y_l,
+            _mm256_setzero_si256(),
+        ));
         _mm_storeu_si128(
             y_plane.get_unchecked_mut(cx..).as_mut_ptr() as *mut __m128i,
             _mm256_castsi256_si128(y_yuv),
@@ -151,6 +159,11 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
         let (r_values, g_values, b_values) =
             _mm256_load_deinterleave_half_rgb_for_yuv::<ORIGIN_CHANNELS>(src_buffer.as_ptr());
 
+        // 16 pixels are in the lower lane, spread them over both of them
+        let r_values = _mm256_permute4x64_epi64::<0x50>(r_values);
+        let g_values = _mm256_permute4x64_epi64::<0x50>(g_values);
+        let b_values = _mm256_permute4x64_epi64::<0x50>(b_values);
+
         let rl = _mm256_unpacklo_epi8(r_values, r_values);
         let gl = _mm256_unpacklo_epi8(g_values, g_values);
         let bl = _mm256_unpacklo_epi8(b_values, b_values);
@@ -167,7 +180,10 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
 
         let y_l = _mm256_srli_epi16::<A_E>(_mm256_add_epi16(y_bias, _mm256_add_epi16(yrgc, bhy)));
 
-        let y_yuv = _mm256_packus_epi16(y_l, _mm256_setzero_si256());
+        let y_yuv = _mm256_permute4x64_epi64::<0xD8>(_mm256_packus_epi16(
+            y_l,
+            _mm256_setzero_si256(),
+        ));
         _mm_storeu_si128(
             y_buffer.as_mut_ptr() as *mut __m128i,
             _mm256_castsi256_si128(y_yuv),
-- 
2.43.0


From be957032905c389afd2cc6718001378200ebcad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 23/63] fix: SSE high bit-depth RGB to 4:2:0 computes the
 second row's luma from its own green

---
 src/sse/rgb_to_yuv_p16_420.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/rgb_to_yuv_p16_420.rs b/src/sse/rgb_to_yuv_p16_420.rs
index a1310b7..244af76 100644
--- a/src/sse/rgb_to_yuv_p16_420.rs
+++ b/src/sse/rgb_to_yuv_p16_420.rs
@@ -126,7 +126,7 @@ unsafe fn sse_rgba_to_yuv_impl<
         let mut y0_vl =
             _mm_affine_v_dot::<PRECISION>(y_bias, r_g_lo0, r_g_hi0, b_lo0, b_hi0, v_yr_yg, v_yb);
 
-        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values0);
+        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values1);
         let b_hi1 = _mm_unpackhi_epi16(b_values1, zeros);
         let b_lo1 = _mm_unpacklo_epi16(b_values1, zeros);
 
@@ -240,7 +240,7 @@ unsafe fn sse_rgba_to_yuv_impl<
         let mut y0_vl =
             _mm_affine_v_dot::<PRECISION>(y_bias, r_g_lo0, r_g_hi0, b_lo0, b_hi0, v_yr_yg, v_yb);
 
-        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values0);
+        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values1);
         let b_hi1 = _mm_unpackhi_epi16(b_values1, zeros);
         let b_lo1 = _mm_unpacklo_epi16(b_values1, zeros);
 
-- 
2.43.0


From 765947f7f652646dca3d8b3052d02ca57704a9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 24/63] fix: SSE NV12 to RGB tail multiplies Cb by the blue
 coefficient

---
 src/sse/yuv_nv_to_rgba420.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/yuv_nv_to_rgba420.rs b/src/sse/yuv_nv_to_rgba420.rs
index 5be0faa..bdf5d40 100644
--- a/src/sse/yuv_nv_to_rgba420.rs
+++ b/src/sse/yuv_nv_to_rgba420.rs
@@ -218,7 +218,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
         );
 
         let v_cr_lo = _mm_mulhrs_epi16(v_low, v_cr_coeff);
-        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cr_coeff);
+        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cb_coeff);
 
         let r_low0 = _mm_add_epi16(y_low0, v_cr_lo);
         let b_low0 = _mm_add_epi16(y_low0, v_cb_lo);
@@ -319,7 +319,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
         );
 
         let v_cr_lo = _mm_mulhrs_epi16(v_low, v_cr_coeff);
-        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cr_coeff);
+        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cb_coeff);
 
         let r_low0 = _mm_add_epi16(y_low0, v_cr_lo);
         let b_low0 = _mm_add_epi16(y_low0, v_cb_lo);
-- 
2.43.0


From fc5fe2b1c663fed7147500a8dc87f1a7953643d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 25/63] fix: AVX2 8-bit to f16 keeps the fractions

---
 src/avx2/f16_converter.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/avx2/f16_converter.rs b/src/avx2/f16_converter.rs
index 85b867f..b24270f 100644
--- a/src/avx2/f16_converter.rs
+++ b/src/avx2/f16_converter.rs
@@ -130,11 +130,8 @@ impl SurfaceU8ToFloat16Avx2 {
             let lc_ps = _mm256_cvtepi32_ps(l_e32);
             let hc_ps = _mm256_cvtepi32_ps(h_e32);
 
-            let mut ls_ps = _mm256_mul_ps(lc_ps, v_scale_h);
-            let mut hs_ps = _mm256_mul_ps(hc_ps, v_scale_h);
-
-            ls_ps = _mm256_round_ps::<0x0>(ls_ps);
-            hs_ps = _mm256_round_ps::<0x0>(hs_ps);
+            let ls_ps = _mm256_mul_ps(lc_ps, v_scale_h);
+            let hs_ps = _mm256_mul_ps(hc_ps, v_scale_h);
 
             let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(ls_ps);
             let hi = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(hs_ps);
@@ -153,8 +150,9 @@ impl SurfaceU8ToFloat16Avx2 {
                 _mm_setzero_si128(),
             );
 
-            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_round_ps::<0x0>(
-                _mm256_mul_ps(_mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)), v_scale_h),
+            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
+                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                v_scale_h,
             ));
 
             _mm_storeu_si128(dst.as_mut_ptr() as *mut _, lo);
@@ -171,13 +169,14 @@ impl SurfaceU8ToFloat16Avx2 {
 
             std::ptr::copy_nonoverlapping(src_rem.as_ptr(), src_buffer.as_mut_ptr(), src_rem.len());
 
-            let items = _mm_unpacklo_epi16(
+            let items = _mm_unpacklo_epi8(
                 _mm_loadu_si64(src_buffer.as_ptr() as *const _),
                 _mm_setzero_si128(),
             );
 
-            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_round_ps::<0x0>(
-                _mm256_mul_ps(_mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)), v_scale_h),
+            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
+                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                v_scale_h,
             ));
 
             _mm_storeu_si128(dst_buffer.as_mut_ptr() as *mut _, lo);
-- 
2.43.0


From f55d4af5c4fa700e690bfb8a36f3b0de71193658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 26/63] fix: 16-bit GBR to f16 scales in f32, white no longer
 overflows to infinity

---
 src/from_identity_alpha_f16.rs | 72 +++++++++++++++++-----------------
 src/from_identity_f16.rs       | 62 ++++++++++++++---------------
 2 files changed, 67 insertions(+), 67 deletions(-)

diff --git a/src/from_identity_alpha_f16.rs b/src/from_identity_alpha_f16.rs
index 3e31081..ed300af 100644
--- a/src/from_identity_alpha_f16.rs
+++ b/src/from_identity_alpha_f16.rs
@@ -41,7 +41,7 @@ use std::marker::PhantomData;
 use std::mem::size_of;
 use std::ops::Sub;
 
-trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16> {
+trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32> {
     unsafe fn process_row(
         &self,
         dst: &mut [f16],
@@ -52,16 +52,16 @@ trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default +
     );
 }
 
-trait CastableToF16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16;
+trait CastableToF32 {
+    fn cast_to_f32<const BIT_DEPTH: usize>(self) -> f32;
 }
 
-impl CastableToF16 for u16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16 {
+impl CastableToF32 for u16 {
+    fn cast_to_f32<const BIT_DEPTH: usize>(self) -> f32 {
         if BIT_DEPTH == 16 {
-            (self as i32) as f16
+            (self as i32) as f32
         } else {
-            (self as i16) as f16
+            (self as i16) as f32
         }
     }
 }
@@ -87,7 +87,7 @@ macro_rules! exec_cv_full {
     ($dst: expr, $y_src: expr, $u_src: expr, $v_src: expr, $a_src: expr, $cn: expr, $bit_depth: expr) => {
         let max_value = (1 << $bit_depth) - 1;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for ((((&y_src, &u_src), &v_src), rgb_dst), a_src) in $y_src
             .iter()
@@ -96,10 +96,10 @@ macro_rules! exec_cv_full {
             .zip(rgb_chunks)
             .zip($a_src)
         {
-            rgb_dst[$cn.get_r_channel_offset()] = v_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_g_channel_offset()] = y_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_b_channel_offset()] = u_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_a_channel_offset()] = a_src.cast_to_f16::<$bit_depth>() * scale;
+            rgb_dst[$cn.get_r_channel_offset()] = (v_src.cast_to_f32::<$bit_depth>() * scale) as f16;
+            rgb_dst[$cn.get_g_channel_offset()] = (y_src.cast_to_f32::<$bit_depth>() * scale) as f16;
+            rgb_dst[$cn.get_b_channel_offset()] = (u_src.cast_to_f32::<$bit_depth>() * scale) as f16;
+            rgb_dst[$cn.get_a_channel_offset()] = (a_src.cast_to_f32::<$bit_depth>() * scale) as f16;
         }
     };
 }
@@ -108,7 +108,7 @@ macro_rules! exec_cv_limited {
     ($dst: expr, $y_src: expr, $u_src: expr, $v_src: expr, $a_src: expr, $cn: expr, $bit_depth: expr, $y_bias: expr, $y_coef: expr, $precision: expr) => {
         let max_value = (1 << $bit_depth) - 1;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for ((((&y_src, &u_src), &v_src), rgb_dst), a_src) in $y_src
             .iter()
@@ -117,26 +117,26 @@ macro_rules! exec_cv_limited {
             .zip(rgb_chunks)
             .zip($a_src)
         {
-            rgb_dst[$cn.get_r_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
-            rgb_dst[$cn.get_g_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
-            rgb_dst[$cn.get_b_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
-            rgb_dst[$cn.get_a_channel_offset()] = a_src.cast_to_f16::<$bit_depth>() * scale;
+            rgb_dst[$cn.get_r_channel_offset()] = (qrshr::<$precision, $bit_depth>(
+                (v_src.as_() - $y_bias).as_() * $y_coef as i32,
+            ) as f32
+                * scale) as f16;
+            rgb_dst[$cn.get_g_channel_offset()] = (qrshr::<$precision, $bit_depth>(
+                (y_src.as_() - $y_bias).as_() * $y_coef as i32,
+            ) as f32
+                * scale) as f16;
+            rgb_dst[$cn.get_b_channel_offset()] = (qrshr::<$precision, $bit_depth>(
+                (u_src.as_() - $y_bias).as_() * $y_coef as i32,
+            ) as f32
+                * scale) as f16;
+            rgb_dst[$cn.get_a_channel_offset()] = (a_src.cast_to_f32::<$bit_depth>() * scale) as f16;
         }
     };
 }
 
 #[derive(Default)]
 struct DefaultFullRowHandle<
-    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
 > {
@@ -144,7 +144,7 @@ struct DefaultFullRowHandle<
 }
 
 impl<
-        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
     > FullRowHandle<V> for DefaultFullRowHandle<V, CHANNELS, BIT_DEPTH>
@@ -165,7 +165,7 @@ impl<
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 #[derive(Default)]
 struct DefaultFullRowHandleNeonFp16<
-    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
 > {
@@ -174,7 +174,7 @@ struct DefaultFullRowHandleNeonFp16<
 
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 impl<
-        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
     > FullRowHandle<V> for DefaultFullRowHandleNeonFp16<V, CHANNELS, BIT_DEPTH>
@@ -196,7 +196,7 @@ impl<
 #[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), feature = "avx"))]
 #[derive(Default)]
 struct DefaultFullRowHandleAvxFp16c<
-    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
 > {
@@ -205,7 +205,7 @@ struct DefaultFullRowHandleAvxFp16c<
 
 #[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), feature = "avx"))]
 impl<
-        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
     > FullRowHandle<V> for DefaultFullRowHandleAvxFp16c<V, CHANNELS, BIT_DEPTH>
@@ -237,7 +237,7 @@ struct DefaultLimitedRowHandle<
 }
 
 impl<
-        V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         J: Copy + Sub<Output = J> + AsPrimitive<i32> + Default + Send + Sync,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
@@ -274,7 +274,7 @@ struct DefaultLimitedRowHandleNeonFp16<
 
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 impl<
-        V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + CastableToF16,
+        V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + CastableToF32,
         J: Copy + Sub<Output = J> + AsPrimitive<i32> + Default + Send + Sync,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
@@ -313,7 +313,7 @@ struct DefaultLimitedRowHandleAvxFp16c<
 
 #[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), feature = "avx"))]
 impl<
-        V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + CastableToF16,
+        V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + CastableToF32,
         J: Copy + Sub<Output = J> + AsPrimitive<i32> + Default + Send + Sync,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
@@ -339,7 +339,7 @@ impl<
 
 #[inline]
 fn gbr_to_rgbx_alpha_f16_impl<
-    V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     J: Copy + Sub<Output = J> + AsPrimitive<i32> + Default + Send + Sync,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
diff --git a/src/from_identity_f16.rs b/src/from_identity_f16.rs
index f8febd1..0df4cdc 100644
--- a/src/from_identity_f16.rs
+++ b/src/from_identity_f16.rs
@@ -41,20 +41,20 @@ use std::marker::PhantomData;
 use std::mem::size_of;
 use std::ops::Sub;
 
-trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16> {
+trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32> {
     unsafe fn process_row(&self, dst: &mut [f16], y_src: &[V], u_src: &[V], v_src: &[V]);
 }
 
-trait CastableToF16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16;
+trait CastableToF32 {
+    fn cast_to_f32<const BIT_DEPTH: usize>(self) -> f32;
 }
 
-impl CastableToF16 for u16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16 {
+impl CastableToF32 for u16 {
+    fn cast_to_f32<const BIT_DEPTH: usize>(self) -> f32 {
         if BIT_DEPTH == 16 {
-            (self as i32) as f16
+            (self as i32) as f32
         } else {
-            (self as i16) as f16
+            (self as i16) as f32
         }
     }
 }
@@ -80,14 +80,14 @@ macro_rules! exec_cv_full {
         let max_value = (1 << $bit_depth) - 1;
         let max_value_f16 = 1f32 as f16;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for (((&y_src, &u_src), &v_src), rgb_dst) in
             $y_src.iter().zip($u_src).zip($v_src).zip(rgb_chunks)
         {
-            rgb_dst[$cn.get_r_channel_offset()] = v_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_g_channel_offset()] = y_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_b_channel_offset()] = u_src.cast_to_f16::<$bit_depth>() * scale;
+            rgb_dst[$cn.get_r_channel_offset()] = (v_src.cast_to_f32::<$bit_depth>() * scale) as f16;
+            rgb_dst[$cn.get_g_channel_offset()] = (y_src.cast_to_f32::<$bit_depth>() * scale) as f16;
+            rgb_dst[$cn.get_b_channel_offset()] = (u_src.cast_to_f32::<$bit_depth>() * scale) as f16;
             if $cn.has_alpha() {
                 rgb_dst[$cn.get_a_channel_offset()] = max_value_f16;
             }
@@ -100,23 +100,23 @@ macro_rules! exec_cv_limited {
         let max_value = (1 << $bit_depth) - 1;
         let max_value_f16 = 1f32 as f16;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for (((&y_src, &u_src), &v_src), rgb_dst) in
             $y_src.iter().zip($u_src).zip($v_src).zip(rgb_chunks)
         {
-            rgb_dst[$cn.get_r_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
-            rgb_dst[$cn.get_g_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
-            rgb_dst[$cn.get_b_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+            rgb_dst[$cn.get_r_channel_offset()] = (qrshr::<$precision, $bit_depth>(
+                (v_src.as_() - $y_bias).as_() * $y_coef as i32,
+            ) as f32
+                * scale) as f16;
+            rgb_dst[$cn.get_g_channel_offset()] = (qrshr::<$precision, $bit_depth>(
+                (y_src.as_() - $y_bias).as_() * $y_coef as i32,
+            ) as f32
+                * scale) as f16;
+            rgb_dst[$cn.get_b_channel_offset()] = (qrshr::<$precision, $bit_depth>(
+                (u_src.as_() - $y_bias).as_() * $y_coef as i32,
+            ) as f32
+                * scale) as f16;
             if $cn.has_alpha() {
                 rgb_dst[$cn.get_a_channel_offset()] = max_value_f16;
             }
@@ -126,7 +126,7 @@ macro_rules! exec_cv_limited {
 
 #[derive(Default)]
 struct DefaultFullRowHandle<
-    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
 > {
@@ -134,7 +134,7 @@ struct DefaultFullRowHandle<
 }
 
 impl<
-        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
     > FullRowHandle<V> for DefaultFullRowHandle<V, CHANNELS, BIT_DEPTH>
@@ -148,7 +148,7 @@ impl<
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 #[derive(Default)]
 struct DefaultFullRowHandleNeonFp16<
-    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
 > {
@@ -157,7 +157,7 @@ struct DefaultFullRowHandleNeonFp16<
 
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 impl<
-        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
     > FullRowHandle<V> for DefaultFullRowHandleNeonFp16<V, CHANNELS, BIT_DEPTH>
@@ -172,7 +172,7 @@ impl<
 #[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), feature = "avx"))]
 #[derive(Default)]
 struct DefaultFullRowHandleAvxFp16c<
-    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
 > {
@@ -181,7 +181,7 @@ struct DefaultFullRowHandleAvxFp16c<
 
 #[cfg(all(any(target_arch = "x86", target_arch = "x86_64"), feature = "avx"))]
 impl<
-        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+        V: Copy + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
         const CHANNELS: u8,
         const BIT_DEPTH: usize,
     > FullRowHandle<V> for DefaultFullRowHandleAvxFp16c<V, CHANNELS, BIT_DEPTH>
@@ -305,7 +305,7 @@ impl<
 
 #[inline]
 fn gbr_to_rgbx_f16_impl<
-    V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + Default + CastableToF16,
+    V: Copy + AsPrimitive<J> + 'static + Sized + Debug + Send + Sync + Default + CastableToF32,
     J: Copy + Sub<Output = J> + AsPrimitive<i32> + Default + Send + Sync,
     const CHANNELS: u8,
     const BIT_DEPTH: usize,
-- 
2.43.0


From 93683374775174517ff3eefc8ad535438f55a1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 27/63] fix: RGB to YCgCo scales all chroma by the chroma range

---
 src/rgb_to_ycgco.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rgb_to_ycgco.rs b/src/rgb_to_ycgco.rs
index 6a25409..155d186 100644
--- a/src/rgb_to_ycgco.rs
+++ b/src/rgb_to_ycgco.rs
@@ -124,7 +124,7 @@ fn rgbx_to_ycgco<const ORIGIN_CHANNELS: u8, const SAMPLING: u8>(
 
                 *y_last = y_0 as u8;
 
-                r0 *= range_reduction_y as i32;
+                r0 *= range_reduction_uv as i32;
                 g0 *= range_reduction_uv as i32;
                 b0 *= range_reduction_uv as i32;
 
@@ -291,9 +291,9 @@ fn rgbx_to_ycgco<const ORIGIN_CHANNELS: u8, const SAMPLING: u8>(
                     >> PRECISION;
                 *y_dst = y_0 as u8;
 
-                r0 *= range_reduction_y as i32;
-                g0 *= range_reduction_y as i32;
-                b0 *= range_reduction_y as i32;
+                r0 *= range_reduction_uv as i32;
+                g0 *= range_reduction_uv as i32;
+                b0 *= range_reduction_uv as i32;
 
                 let cg = (((g0 >> 1) - ((r0 + b0) >> 2)) + bias_uv) >> PRECISION;
                 let co = (((r0 - b0) >> 1) + bias_uv) >> PRECISION;
-- 
2.43.0


From 03f87f97b49d0cd33338bdd6662cd411de544cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:02 +0000
Subject: [PATCH 28/63] fix: 4:4:4 to YUY2 converts the columns after the SIMD
 loop, AVX2 averages the chroma once

---
 src/avx2/avx2_utils.rs | 8 +-------
 src/yuv_to_yuy2.rs     | 2 +-
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/avx2/avx2_utils.rs b/src/avx2/avx2_utils.rs
index 6f04025..af3289d 100644
--- a/src/avx2/avx2_utils.rs
+++ b/src/avx2/avx2_utils.rs
@@ -336,12 +336,6 @@ pub(crate) unsafe fn avx2_deinterleave_rgb(
 //     _mm256_permute4x64_epi64::<MASK>(v)
 // }
 
-#[inline(always)]
-pub(crate) unsafe fn avx_pairwise_avg_epi16(a: __m256i, b: __m256i) -> __m256i {
-    let sums = _mm256_hadd_epi16(a, b);
-    _mm256_srli_epi16::<1>(_mm256_add_epi16(sums, _mm256_set1_epi16(1)))
-}
-
 #[inline(always)]
 pub(crate) unsafe fn avx_pairwise_avg_epi16_epi8_j(a: __m256i, f: i8) -> __m256i {
     _mm256_maddubs_epi16(a, _mm256_set1_epi8(f))
@@ -470,7 +464,7 @@ pub(crate) unsafe fn _mm256_havg_epu8(a: __m256i, b: __m256i) -> __m256i {
     let lo = _mm256_srli_epi16::<1>(_mm256_add_epi16(sums_lo, ones_16));
     let sums_hi = _mm256_maddubs_epi16(b, ones);
     let hi = _mm256_srli_epi16::<1>(_mm256_add_epi16(sums_hi, ones_16));
-    avx_pairwise_avg_epi16(lo, hi)
+    avx2_pack_u16(lo, hi)
 }
 
 #[inline(always)]
diff --git a/src/yuv_to_yuy2.rs b/src/yuv_to_yuy2.rs
index 4512b83..cda8390 100644
--- a/src/yuv_to_yuy2.rs
+++ b/src/yuv_to_yuy2.rs
@@ -243,7 +243,7 @@ pub(crate) fn yuv_to_yuy2_impl<
                 .zip(y_src.chunks_exact(2))
                 .zip(u_src.chunks_exact(2))
                 .zip(v_src.chunks_exact(2))
-                .skip(processed)
+                .skip(processed / 2)
             {
                 yuy2[yuy2_target.get_first_y_position()] = y_src[0];
                 yuy2[yuy2_target.get_second_y_position()] = y_src[1];
-- 
2.43.0


From a2112ca7cb96deb40e864de151d72c6a06d03f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 29/63] fix: YUY2 to planar clips V to its row, converts the
 columns after the SIMD loop and the odd last row

---
 src/yuy2_to_yuv.rs     | 115 +++++++++++++++++++++++++----------------
 src/yuy2_to_yuv_p16.rs | 103 ++++++++++++++++++++++--------------
 2 files changed, 135 insertions(+), 83 deletions(-)

diff --git a/src/yuy2_to_yuv.rs b/src/yuy2_to_yuv.rs
index d565919..57f4623 100644
--- a/src/yuy2_to_yuv.rs
+++ b/src/yuy2_to_yuv.rs
@@ -146,7 +146,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..planar_image.width as usize];
-            let u_dst = &mut u_dst[0..planar_image.width as usize];
+            let v_dst = &mut v_dst[0..planar_image.width as usize];
 
             let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2_src);
 
@@ -155,7 +155,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 .zip(u_dst.chunks_exact_mut(2))
                 .zip(v_dst.chunks_exact_mut(2))
                 .zip(yuy2_src.chunks_exact(4))
-                .skip(p_offset.cx)
+                .skip(p_offset.cx / 2)
             {
                 let first_y_position = yuy2[yuy2_target.get_first_y_position()];
                 let second_y_position = yuy2[yuy2_target.get_second_y_position()];
@@ -210,7 +210,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-            let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+            let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
             let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2_src);
 
@@ -219,7 +219,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 .zip(u_dst.iter_mut())
                 .zip(v_dst.iter_mut())
                 .zip(yuy2_src.chunks_exact(4))
-                .skip(p_offset.cx)
+                .skip(p_offset.cx / 2)
             {
                 let first_y_position = yuy2[yuy2_target.get_first_y_position()];
                 let second_y_position = yuy2[yuy2_target.get_second_y_position()];
@@ -243,6 +243,51 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
+        let process_row = |y_dst: &mut [u8],
+                           u_dst: &mut [u8],
+                           v_dst: &mut [u8],
+                           yuy2: &[u8],
+                           process_chroma: bool| {
+            let yuy2 = &yuy2[0..yuy2_width];
+            let y_dst = &mut y_dst[0..planar_image.width as usize];
+            let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+            let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
+
+            let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2);
+
+            for (((y_dst, u_dst), v_dst), yuy2) in y_dst
+                .chunks_exact_mut(2)
+                .zip(u_dst.iter_mut())
+                .zip(v_dst.iter_mut())
+                .zip(yuy2.chunks_exact(4))
+                .skip(p_offset.cx / 2)
+            {
+                let first_y_position = yuy2[yuy2_target.get_first_y_position()];
+                let second_y_position = yuy2[yuy2_target.get_second_y_position()];
+                y_dst[0] = first_y_position;
+                y_dst[1] = second_y_position;
+                if process_chroma {
+                    let u_value = yuy2[yuy2_target.get_u_position()];
+                    let v_value = yuy2[yuy2_target.get_v_position()];
+                    *u_dst = u_value;
+                    *v_dst = v_value;
+                }
+            }
+
+            if width & 1 != 0 {
+                let y_dst = y_dst.last_mut().unwrap();
+                let yuy2 = yuy2.chunks_exact(4).last().unwrap();
+                let yuy2 = &yuy2[0..4];
+                *y_dst = yuy2[yuy2_target.get_first_y_position()];
+                if process_chroma {
+                    let u_dst = u_dst.last_mut().unwrap();
+                    let v_dst = v_dst.last_mut().unwrap();
+                    *u_dst = yuy2[yuy2_target.get_u_position()];
+                    *v_dst = yuy2[yuy2_target.get_v_position()];
+                }
+            }
+        };
+
         let iter;
         #[cfg(feature = "rayon")]
         {
@@ -269,53 +314,35 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 );
         }
         iter.for_each(|(((y_dst, u_dst), v_dst), yuy2_src)| {
+            // The wide row always stores the chroma, so the first row of the pair goes last
             for (y, (y_dst, yuy2)) in y_dst
                 .chunks_exact_mut(y_stride as usize)
                 .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
                 .enumerate()
+                .rev()
             {
-                let yuy2 = &yuy2[0..yuy2_width];
-                let y_dst = &mut y_dst[0..planar_image.width as usize];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-
-                let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2);
-
-                let process_chroma = y & 1 == 0;
-
-                for (((y_dst, u_dst), v_dst), yuy2) in y_dst
-                    .chunks_exact_mut(2)
-                    .zip(u_dst.iter_mut())
-                    .zip(v_dst.iter_mut())
-                    .zip(yuy2.chunks_exact(4))
-                    .skip(p_offset.cx)
-                {
-                    let first_y_position = yuy2[yuy2_target.get_first_y_position()];
-                    let second_y_position = yuy2[yuy2_target.get_second_y_position()];
-                    y_dst[0] = first_y_position;
-                    y_dst[1] = second_y_position;
-                    if process_chroma {
-                        let u_value = yuy2[yuy2_target.get_u_position()];
-                        let v_value = yuy2[yuy2_target.get_v_position()];
-                        *u_dst = u_value;
-                        *v_dst = v_value;
-                    }
-                }
-
-                if width & 1 != 0 {
-                    let y_dst = y_dst.last_mut().unwrap();
-                    let yuy2 = yuy2_src.chunks_exact(4).last().unwrap();
-                    let yuy2 = &yuy2[0..4];
-                    *y_dst = yuy2[yuy2_target.get_first_y_position()];
-                    if process_chroma {
-                        let u_dst = u_dst.last_mut().unwrap();
-                        let v_dst = v_dst.last_mut().unwrap();
-                        *u_dst = yuy2[yuy2_target.get_u_position()];
-                        *v_dst = yuy2[yuy2_target.get_v_position()];
-                    }
-                }
+                process_row(y_dst, u_dst, v_dst, yuy2, y & 1 == 0);
             }
         });
+
+        if planar_image.height & 1 != 0 {
+            let y_dst = y_plane
+                .chunks_exact_mut(y_stride as usize * 2)
+                .into_remainder();
+            let yuy2 = packed_image
+                .yuy
+                .chunks_exact(packed_image.yuy_stride as usize * 2)
+                .remainder();
+            let u_dst = u_plane
+                .chunks_exact_mut(u_stride as usize)
+                .last()
+                .unwrap();
+            let v_dst = v_plane
+                .chunks_exact_mut(v_stride as usize)
+                .last()
+                .unwrap();
+            process_row(y_dst, u_dst, v_dst, yuy2, true);
+        }
     }
 
     Ok(())
diff --git a/src/yuy2_to_yuv_p16.rs b/src/yuy2_to_yuv_p16.rs
index 225bd28..37e2268 100644
--- a/src/yuy2_to_yuv_p16.rs
+++ b/src/yuy2_to_yuv_p16.rs
@@ -90,7 +90,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..planar_image.width as usize];
-            let u_dst = &mut u_dst[0..planar_image.width as usize];
+            let v_dst = &mut v_dst[0..planar_image.width as usize];
 
             for (((y_dst, u_dst), v_dst), yuy2) in y_dst
                 .chunks_exact_mut(2)
@@ -151,7 +151,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-            let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+            let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
             for (((y_dst, u_dst), v_dst), yuy2) in y_dst
                 .chunks_exact_mut(2)
@@ -181,6 +181,48 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
+        let process_row = |y_dst: &mut [u16],
+                           u_dst: &mut [u16],
+                           v_dst: &mut [u16],
+                           yuy2: &[u16],
+                           process_chroma: bool| {
+            let yuy2 = &yuy2[0..yuy2_width];
+            let y_dst = &mut y_dst[0..planar_image.width as usize];
+            let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+            let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
+
+            for (((y_dst, u_dst), v_dst), yuy2) in y_dst
+                .chunks_exact_mut(2)
+                .zip(u_dst.iter_mut())
+                .zip(v_dst.iter_mut())
+                .zip(yuy2.chunks_exact(4))
+            {
+                let first_y_position = yuy2[yuy2_target.get_first_y_position()];
+                let second_y_position = yuy2[yuy2_target.get_second_y_position()];
+                y_dst[0] = first_y_position;
+                y_dst[1] = second_y_position;
+                if process_chroma {
+                    let u_value = yuy2[yuy2_target.get_u_position()];
+                    let v_value = yuy2[yuy2_target.get_v_position()];
+                    *u_dst = u_value;
+                    *v_dst = v_value;
+                }
+            }
+
+            if width & 1 != 0 {
+                let y_dst = y_dst.last_mut().unwrap();
+                let yuy2 = yuy2.chunks_exact(4).last().unwrap();
+                let yuy2 = &yuy2[0..4];
+                *y_dst = yuy2[yuy2_target.get_first_y_position()];
+                if process_chroma {
+                    let u_dst = u_dst.last_mut().unwrap();
+                    let v_dst = v_dst.last_mut().unwrap();
+                    *u_dst = yuy2[yuy2_target.get_u_position()];
+                    *v_dst = yuy2[yuy2_target.get_v_position()];
+                }
+            }
+        };
+
         let iter;
         #[cfg(feature = "rayon")]
         {
@@ -212,45 +254,28 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
                 .enumerate()
             {
-                let yuy2 = &yuy2[0..yuy2_width];
-                let y_dst = &mut y_dst[0..planar_image.width as usize];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-
-                let process_chroma = y & 1 == 0;
-
-                for (((y_dst, u_dst), v_dst), yuy2) in y_dst
-                    .chunks_exact_mut(2)
-                    .zip(u_dst.iter_mut())
-                    .zip(v_dst.iter_mut())
-                    .zip(yuy2.chunks_exact(4))
-                {
-                    let first_y_position = yuy2[yuy2_target.get_first_y_position()];
-                    let second_y_position = yuy2[yuy2_target.get_second_y_position()];
-                    y_dst[0] = first_y_position;
-                    y_dst[1] = second_y_position;
-                    if process_chroma {
-                        let u_value = yuy2[yuy2_target.get_u_position()];
-                        let v_value = yuy2[yuy2_target.get_v_position()];
-                        *u_dst = u_value;
-                        *v_dst = v_value;
-                    }
-                }
-
-                if width & 1 != 0 {
-                    let y_dst = y_dst.last_mut().unwrap();
-                    let yuy2 = yuy2_src.chunks_exact(4).last().unwrap();
-                    let yuy2 = &yuy2[0..4];
-                    *y_dst = yuy2[yuy2_target.get_first_y_position()];
-                    if process_chroma {
-                        let u_dst = u_dst.last_mut().unwrap();
-                        let v_dst = v_dst.last_mut().unwrap();
-                        *u_dst = yuy2[yuy2_target.get_u_position()];
-                        *v_dst = yuy2[yuy2_target.get_v_position()];
-                    }
-                }
+                process_row(y_dst, u_dst, v_dst, yuy2, y & 1 == 0);
             }
         });
+
+        if planar_image.height & 1 != 0 {
+            let y_dst = y_plane
+                .chunks_exact_mut(y_stride as usize * 2)
+                .into_remainder();
+            let yuy2 = packed_image
+                .yuy
+                .chunks_exact(packed_image.yuy_stride as usize * 2)
+                .remainder();
+            let u_dst = u_plane
+                .chunks_exact_mut(u_stride as usize)
+                .last()
+                .unwrap();
+            let v_dst = v_plane
+                .chunks_exact_mut(v_stride as usize)
+                .last()
+                .unwrap();
+            process_row(y_dst, u_dst, v_dst, yuy2, true);
+        }
     }
 
     Ok(())
-- 
2.43.0


From 280e86b54a27b331a5dab9463d51eae1e30b0d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:39 +0000
Subject: [PATCH 30/63] fix: SSE 4:4:4 to YUY2 keeps the chroma of its 16 pixel
 step together

---
 src/sse/yuv_to_yuy2.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/sse/yuv_to_yuy2.rs b/src/sse/yuv_to_yuy2.rs
index bca03a6..ffb056c 100644
--- a/src/sse/yuv_to_yuy2.rs
+++ b/src/sse/yuv_to_yuy2.rs
@@ -142,14 +142,8 @@ unsafe fn yuv_to_yuy2_sse_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 let full_u = _mm_loadu_si128(u_plane.as_ptr().add(u_pos) as *const __m128i);
                 let full_v = _mm_loadu_si128(v_plane.as_ptr().add(v_pos) as *const __m128i);
 
-                let low_u = _mm_getlow_epi8(full_u);
-                let high_u = _mm_gethigh_epi8(full_u);
-                u_pixels = _mm_havg_epu8(low_u, high_u);
-
-                let low_v = _mm_getlow_epi8(full_v);
-                let high_v = _mm_gethigh_epi8(full_v);
-
-                v_pixels = _mm_havg_epu8(low_v, high_v);
+                u_pixels = _mm_havg_epu8(full_u, _mm_setzero_si128());
+                v_pixels = _mm_havg_epu8(full_v, _mm_setzero_si128());
             } else {
                 u_pixels = _mm_loadu_si64(u_plane.as_ptr().add(u_pos));
                 v_pixels = _mm_loadu_si64(v_plane.as_ptr().add(v_pos));
-- 
2.43.0


From 512540db93654ce546f26623995ce00d1f561355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:56 +0000
Subject: [PATCH 31/63] fix: rotating a plane by 180 accepts different source
 and destination strides

---
 src/geometry.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/geometry.rs b/src/geometry.rs
index 08b976b..c5497db 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -53,6 +53,35 @@ pub(crate) fn map_ft_result(result: Result<(), TransposeError>) -> Result<(), Yu
     }
 }
 
+/// Rotates a plane by 180 when the strides of the source and of the destination differ,
+/// `rotate180_plane` requires both buffers to have the same size.
+fn rotate180_rows<T: Copy>(
+    src: &[T],
+    src_stride: usize,
+    dst: &mut [T],
+    dst_stride: usize,
+    width: usize,
+    height: usize,
+) -> Result<(), YuvError> {
+    if src_stride < width.max(1)
+        || dst_stride < width.max(1)
+        || src.len() != src_stride * height
+        || dst.len() != dst_stride * height
+    {
+        return Err(YuvError::ImageDimensionsNotMatch);
+    }
+    for (src, dst) in src
+        .chunks_exact(src_stride)
+        .rev()
+        .zip(dst.chunks_exact_mut(dst_stride))
+    {
+        for (&src, dst) in src[..width].iter().rev().zip(dst.iter_mut()) {
+            *dst = src;
+        }
+    }
+    Ok(())
+}
+
 /// Rotates RGBA 8 bit image.
 ///
 /// This rotates any 4 channels image, channel order does not matter.
@@ -244,6 +273,9 @@ pub fn rotate_plane(
             FlipMode::NoFlip,
             FlopMode::NoFlop,
         ),
+        RotationMode::Rotate180 if src_stride != dst_stride => {
+            return rotate180_rows(src, src_stride, dst, dst_stride, width, height);
+        }
         RotationMode::Rotate180 => rotate180_plane(src, src_stride, dst, dst_stride, width, height),
         RotationMode::Rotate270 => transpose_plane(
             src,
@@ -452,6 +484,9 @@ pub fn rotate_plane16(
             FlipMode::NoFlip,
             FlopMode::NoFlop,
         ),
+        RotationMode::Rotate180 if src_stride != dst_stride => {
+            return rotate180_rows(src, src_stride, dst, dst_stride, width, height);
+        }
         RotationMode::Rotate180 => {
             rotate180_plane16(src, src_stride, dst, dst_stride, width, height)
         }
-- 
2.43.0


From 40b1f687abf464d8d8088f33524f2ddb8191d172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 32/63] fix: Rotate90 of RGBA, CbCr, RGBA16 and 16-bit planes
 avoids the broken SIMD transpositions

---
 src/geometry.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index c5497db..511f612 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -29,9 +29,10 @@
 use crate::YuvError;
 use fast_transpose::{
     rotate180_plane, rotate180_plane16, rotate180_plane16_with_alpha, rotate180_plane_with_alpha,
-    rotate180_rgb, rotate180_rgb16, rotate180_rgba, rotate180_rgba16, transpose_plane,
-    transpose_plane16, transpose_plane16_with_alpha, transpose_plane_with_alpha, transpose_rgb,
-    transpose_rgb16, transpose_rgba, transpose_rgba16, FlipMode, FlopMode, TransposeError,
+    rotate180_rgb, rotate180_rgb16, rotate180_rgba, rotate180_rgba16, transpose_arbitrary,
+    transpose_arbitrary_grouped, transpose_plane, transpose_plane16, transpose_plane16_with_alpha,
+    transpose_plane_with_alpha, transpose_rgb, transpose_rgb16, transpose_rgba, transpose_rgba16,
+    FlipMode, FlopMode, TransposeError,
 };
 
 /// Declares rotation mode, 90, 180, 270
@@ -53,6 +54,10 @@ pub(crate) fn map_ft_result(result: Result<(), TransposeError>) -> Result<(), Yu
     }
 }
 
+// The SIMD transpositions of RGBA, CbCr, RGBA16 and 16-bit planes in `fast_transpose` 0.2 mix up
+// the rows of their last columns when no mode flops, hence `Rotate90` of these goes through
+// `transpose_arbitrary` and `transpose_arbitrary_grouped`.
+
 /// Rotates a plane by 180 when the strides of the source and of the destination differ,
 /// `rotate180_plane` requires both buffers to have the same size.
 fn rotate180_rows<T: Copy>(
@@ -108,7 +113,7 @@ pub fn rotate_rgba(
     mode: RotationMode,
 ) -> Result<(), YuvError> {
     let rs = match mode {
-        RotationMode::Rotate90 => transpose_rgba(
+        RotationMode::Rotate90 => transpose_arbitrary_grouped::<u8, 4>(
             src,
             src_stride,
             dst,
@@ -210,7 +215,7 @@ pub fn rotate_cbcr(
     mode: RotationMode,
 ) -> Result<(), YuvError> {
     let rs = match mode {
-        RotationMode::Rotate90 => transpose_plane_with_alpha(
+        RotationMode::Rotate90 => transpose_arbitrary_grouped::<u8, 2>(
             src,
             src_stride,
             dst,
@@ -317,7 +322,7 @@ pub fn rotate_rgba16(
     mode: RotationMode,
 ) -> Result<(), YuvError> {
     let rs = match mode {
-        RotationMode::Rotate90 => transpose_rgba16(
+        RotationMode::Rotate90 => transpose_arbitrary_grouped::<u16, 4>(
             src,
             src_stride,
             dst,
@@ -474,7 +479,7 @@ pub fn rotate_plane16(
     mode: RotationMode,
 ) -> Result<(), YuvError> {
     let rs = match mode {
-        RotationMode::Rotate90 => transpose_plane16(
+        RotationMode::Rotate90 => transpose_arbitrary(
             src,
             src_stride,
             dst,
-- 
2.43.0


From 072739b3ff66f81b4eb1f2a719a2b6ab25d6e159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:26 +0000
Subject: [PATCH 33/63] fix: SIMD premultiplication clamps the channels first,
 AVX2 keeps opaque pixels as they are

---
 src/avx2/avx2_utils.rs            |  4 ++--
 src/avx2/ayuv_to_rgba.rs          |  9 +++++++++
 src/avx2/yuv_to_rgba_alpha.rs     | 27 ++++++++++++++-------------
 src/avx512bw/yuv_to_rgba_alpha.rs |  8 ++++++++
 src/sse/yuv_to_rgba_alpha.rs      |  8 ++++++++
 5 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/avx2/avx2_utils.rs b/src/avx2/avx2_utils.rs
index af3289d..3b621f5 100644
--- a/src/avx2/avx2_utils.rs
+++ b/src/avx2/avx2_utils.rs
@@ -360,8 +360,8 @@ pub(crate) unsafe fn avx2_div_by255_x2(l: __m256i, v: __m256i) -> (__m256i, __m2
     let j0 = _mm256_srli_epi16::<8>(k0);
     let j1 = _mm256_srli_epi16::<8>(k1);
 
-    let kv0 = _mm256_add_epi16(l, j0);
-    let kv1 = _mm256_add_epi16(v, j1);
+    let kv0 = _mm256_add_epi16(k0, j0);
+    let kv1 = _mm256_add_epi16(k1, j1);
 
     (_mm256_srli_epi16::<8>(kv0), _mm256_srli_epi16::<8>(kv1))
 }
diff --git a/src/avx2/ayuv_to_rgba.rs b/src/avx2/ayuv_to_rgba.rs
index 733eeb3..aa8bcb7 100644
--- a/src/avx2/ayuv_to_rgba.rs
+++ b/src/avx2/ayuv_to_rgba.rs
@@ -236,6 +236,15 @@ unsafe fn avx2_ayuv_to_rgba_impl<const DESTINATION_CHANNELS: u8, const PACKED: u
         let (r_values, g_values, b_values);
 
         if use_premultiply {
+            let zeros = _mm256_setzero_si256();
+            let max_8 = _mm256_set1_epi16(255);
+            let r_high = _mm256_min_epi16(_mm256_max_epi16(r_high, zeros), max_8);
+            let g_high = _mm256_min_epi16(_mm256_max_epi16(g_high, zeros), max_8);
+            let b_high = _mm256_min_epi16(_mm256_max_epi16(b_high, zeros), max_8);
+            let r_low = _mm256_min_epi16(_mm256_max_epi16(r_low, zeros), max_8);
+            let g_low = _mm256_min_epi16(_mm256_max_epi16(g_low, zeros), max_8);
+            let b_low = _mm256_min_epi16(_mm256_max_epi16(b_low, zeros), max_8);
+
             let a_high = _mm256_unpackhi_epi8(a, _mm256_setzero_si256());
             let a_low = _mm256_unpacklo_epi8(a, _mm256_setzero_si256());
 
diff --git a/src/avx2/yuv_to_rgba_alpha.rs b/src/avx2/yuv_to_rgba_alpha.rs
index f05995f..5fc03ce 100644
--- a/src/avx2/yuv_to_rgba_alpha.rs
+++ b/src/avx2/yuv_to_rgba_alpha.rs
@@ -316,9 +316,9 @@ unsafe fn avx2_yuv_to_rgba_alpha_impl<const DESTINATION_CHANNELS: u8, const SAMP
         let ghc0 = _mm256_mulhrs_epi16(v_high, v_g_coeff_1);
         let ghc1 = _mm256_mulhrs_epi16(u_high, v_g_coeff_2);
 
-        let mut r_high = _mm256_add_epi16(y_high, rhc);
-        let mut b_high = _mm256_add_epi16(y_high, bhc);
-        let mut g_high = _mm256_sub_epi16(y_high, _mm256_add_epi16(ghc0, ghc1));
+        let r_high = _mm256_add_epi16(y_high, rhc);
+        let b_high = _mm256_add_epi16(y_high, bhc);
+        let g_high = _mm256_sub_epi16(y_high, _mm256_add_epi16(ghc0, ghc1));
 
         let u_low = _mm256_sub_epi16(u_low_u16, uv_corr);
         let v_low = _mm256_sub_epi16(v_low_u16, uv_corr);
@@ -329,20 +329,21 @@ unsafe fn avx2_yuv_to_rgba_alpha_impl<const DESTINATION_CHANNELS: u8, const SAMP
         let glc0 = _mm256_mulhrs_epi16(v_low, v_g_coeff_1);
         let glc1 = _mm256_mulhrs_epi16(u_low, v_g_coeff_2);
 
-        let mut r_low = _mm256_add_epi16(y_low, rlc);
-        let mut b_low = _mm256_add_epi16(y_low, blc);
-        let mut g_low = _mm256_sub_epi16(y_low, _mm256_add_epi16(glc0, glc1));
+        let r_low = _mm256_add_epi16(y_low, rlc);
+        let b_low = _mm256_add_epi16(y_low, blc);
+        let g_low = _mm256_sub_epi16(y_low, _mm256_add_epi16(glc0, glc1));
 
         let (r_values, g_values, b_values);
 
         if use_premultiply {
-            r_high = _mm256_max_epi16(r_high, _mm256_setzero_si256());
-            b_high = _mm256_max_epi16(b_high, _mm256_setzero_si256());
-            g_high = _mm256_max_epi16(g_high, _mm256_setzero_si256());
-
-            r_low = _mm256_max_epi16(r_low, _mm256_setzero_si256());
-            b_low = _mm256_max_epi16(b_low, _mm256_setzero_si256());
-            g_low = _mm256_max_epi16(g_low, _mm256_setzero_si256());
+            let zeros = _mm256_setzero_si256();
+            let max_8 = _mm256_set1_epi16(255);
+            let r_high = _mm256_min_epi16(_mm256_max_epi16(r_high, zeros), max_8);
+            let g_high = _mm256_min_epi16(_mm256_max_epi16(g_high, zeros), max_8);
+            let b_high = _mm256_min_epi16(_mm256_max_epi16(b_high, zeros), max_8);
+            let r_low = _mm256_min_epi16(_mm256_max_epi16(r_low, zeros), max_8);
+            let g_low = _mm256_min_epi16(_mm256_max_epi16(g_low, zeros), max_8);
+            let b_low = _mm256_min_epi16(_mm256_max_epi16(b_low, zeros), max_8);
 
             let a_high = _mm256_unpackhi_epi8(a_values, _mm256_setzero_si256());
             let a_low = _mm256_unpacklo_epi8(a_values, _mm256_setzero_si256());
diff --git a/src/avx512bw/yuv_to_rgba_alpha.rs b/src/avx512bw/yuv_to_rgba_alpha.rs
index 9930b1c..2dba4ac 100644
--- a/src/avx512bw/yuv_to_rgba_alpha.rs
+++ b/src/avx512bw/yuv_to_rgba_alpha.rs
@@ -252,6 +252,14 @@ unsafe fn avx512_yuv_to_rgba_alpha_impl<
         let (r_values, g_values, b_values);
 
         if use_premultiply {
+            let zeros = _mm512_setzero_si512();
+            let max_8 = _mm512_set1_epi16(255);
+            let r_high = _mm512_min_epi16(_mm512_max_epi16(r_high, zeros), max_8);
+            let g_high = _mm512_min_epi16(_mm512_max_epi16(g_high, zeros), max_8);
+            let b_high = _mm512_min_epi16(_mm512_max_epi16(b_high, zeros), max_8);
+            let r_low = _mm512_min_epi16(_mm512_max_epi16(r_low, zeros), max_8);
+            let g_low = _mm512_min_epi16(_mm512_max_epi16(g_low, zeros), max_8);
+            let b_low = _mm512_min_epi16(_mm512_max_epi16(b_low, zeros), max_8);
             let a_high = _mm512_cvtepu8_epi16(_mm512_extracti64x4_epi64::<1>(a_values));
             let a_low = _mm512_cvtepu8_epi16(_mm512_castsi512_si256(a_values));
 
diff --git a/src/sse/yuv_to_rgba_alpha.rs b/src/sse/yuv_to_rgba_alpha.rs
index 05f8158..65cdc4a 100644
--- a/src/sse/yuv_to_rgba_alpha.rs
+++ b/src/sse/yuv_to_rgba_alpha.rs
@@ -165,6 +165,14 @@ unsafe fn sse_yuv_to_rgba_alpha_row_impl<const DESTINATION_CHANNELS: u8, const S
         let (r_values, g_values, b_values);
 
         if use_premultiply {
+            let zeros = _mm_setzero_si128();
+            let max_8 = _mm_set1_epi16(255);
+            let r_high = _mm_min_epi16(_mm_max_epi16(r_high, zeros), max_8);
+            let g_high = _mm_min_epi16(_mm_max_epi16(g_high, zeros), max_8);
+            let b_high = _mm_min_epi16(_mm_max_epi16(b_high, zeros), max_8);
+            let r_low = _mm_min_epi16(_mm_max_epi16(r_low, zeros), max_8);
+            let g_low = _mm_min_epi16(_mm_max_epi16(g_low, zeros), max_8);
+            let b_low = _mm_min_epi16(_mm_max_epi16(b_low, zeros), max_8);
             let a_h = _mm_unpackhi_epi8(a_values, _mm_setzero_si128());
             let a_l = _mm_unpacklo_epi8(a_values, _mm_setzero_si128());
             let r_h_16 = sse_div_by255(_mm_mullo_epi16(r_high, a_h));
-- 
2.43.0


From 85acddf931833791c07df0780cbb550f20c248bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 34/63] fix: 10 and 12 bit YUV to 8-bit RGB with matrices other
 than the prebuilt ones uses the sample maximum, not the bit depth, as the
 range

---
 src/yuv_p10_rgba.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yuv_p10_rgba.rs b/src/yuv_p10_rgba.rs
index 4a6df89..4dd4a06 100644
--- a/src/yuv_p10_rgba.rs
+++ b/src/yuv_p10_rgba.rs
@@ -83,7 +83,7 @@ fn yuv_p16_to_image_ant<
         stored
     } else {
         let transform = get_inverse_transform(
-            BIT_DEPTH as u32,
+            (1 << BIT_DEPTH) - 1,
             chroma_range.range_y,
             chroma_range.range_uv,
             kr_kb.kr,
-- 
2.43.0


From 65e91199338479583b2adfd1c221da16e1074e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 35/63] fix: professional NV to RGB goes scalar when the Cr
 coefficient does not fit 16 bits (SMPTE 240 limited)

---
 src/yuv_nv_to_rgba.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/yuv_nv_to_rgba.rs b/src/yuv_nv_to_rgba.rs
index 8be088e..58e1bff 100644
--- a/src/yuv_nv_to_rgba.rs
+++ b/src/yuv_nv_to_rgba.rs
@@ -393,6 +393,10 @@ macro_rules! impl_row_biplanar_inversion_handler {
                 chroma: YuvChromaRange,
                 transform: &CbCrInverseTransform<i32>,
             ) -> ProcessedOffset {
+                // SIMD rows hold the coefficients in 16 bits, and split only Cb
+                if transform.cr_coef > i16::MAX as i32 {
+                    return ProcessedOffset { cx: 0, ux: 0 };
+                }
                 if let Some(handler) = self.handler {
                     unsafe {
                         return handler(
@@ -469,6 +473,10 @@ macro_rules! impl_row_biplanar_inversion_420_handler {
                 chroma: YuvChromaRange,
                 transform: &CbCrInverseTransform<i32>,
             ) -> ProcessedOffset {
+                // SIMD rows hold the coefficients in 16 bits, and split only Cb
+                if transform.cr_coef > i16::MAX as i32 {
+                    return ProcessedOffset { cx: 0, ux: 0 };
+                }
                 if let Some(handler) = self.handler {
                     unsafe {
                         return handler(
-- 
2.43.0


From 846ccd83b59a7b8474848da68dc254d5f2db293b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 36/63] fix: rounded luma weights never sum over the range, so
 that white does not wrap in fast mode

---
 src/yuv_support.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/yuv_support.rs b/src/yuv_support.rs
index 8c4f39d..f5c7a35 100644
--- a/src/yuv_support.rs
+++ b/src/yuv_support.rs
@@ -155,10 +155,15 @@ pub trait ToIntegerTransform {
 impl ToIntegerTransform for CbCrForwardTransform<f32> {
     fn to_integers(&self, precision: u32) -> CbCrForwardTransform<i32> {
         let scale = (1 << precision) as f32;
+        let yr = (self.yr * scale).round() as i32;
+        let yb = (self.yb * scale).round() as i32;
+        // The sum of the luma weights must not exceed the range, or white will overflow
+        let y_sum = ((self.yr + self.yg + self.yb) * scale).round() as i32;
+        let yg = ((self.yg * scale).round() as i32).min(y_sum - yr - yb);
         CbCrForwardTransform::<i32> {
-            yr: (self.yr * scale).round() as i32,
-            yg: (self.yg * scale).round() as i32,
-            yb: (self.yb * scale).round() as i32,
+            yr,
+            yg,
+            yb,
             cb_r: (self.cb_r * scale).round() as i32,
             cb_g: (self.cb_g * scale).round() as i32,
             cb_b: (self.cb_b * scale).round() as i32,
-- 
2.43.0


From dde37f9370eb171b769e1b5013c88415e1d22703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 37/63] fix: AVX2 YUV to RGBA F16 stores opaque alpha as 1.0

---
 src/avx2/yuv_p16_to_rgb_f16.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb_f16.rs b/src/avx2/yuv_p16_to_rgb_f16.rs
index 42f3cdc..84014f8 100644
--- a/src/avx2/yuv_p16_to_rgb_f16.rs
+++ b/src/avx2/yuv_p16_to_rgb_f16.rs
@@ -106,6 +106,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
     const D: bool = false;
 
     let v_max_colors = _mm256_set1_epi16(((1i32 << BIT_DEPTH as i32) - 1i32) as i16);
+    let v_opaque = _mm256_set1_epi16(1.0f16.to_bits() as i16);
     let v_luma_coeff = if BIT_DEPTH == 16 {
         _mm256_set1_epi32(transform.y_coef)
     } else {
@@ -279,7 +280,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
             _mm256_setr_m128i(r_lo, r_hi),
             _mm256_setr_m128i(g_lo, g_hi),
             _mm256_setr_m128i(b_lo, b_hi),
-            v_max_colors,
+            v_opaque,
         );
 
         cx += 16;
@@ -466,7 +467,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
             _mm256_setr_m128i(r_lo, r_hi),
             _mm256_setr_m128i(g_lo, g_hi),
             _mm256_setr_m128i(b_lo, b_hi),
-            v_max_colors,
+            v_opaque,
         );
 
         std::ptr::copy_nonoverlapping(buffer.as_ptr(), dst_ptr.as_mut_ptr(), diff * channels);
-- 
2.43.0


From 71443f30735d52a9ba2dcc919829544b71e19d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:03 +0000
Subject: [PATCH 38/63] fix: 10 to 16 bit gray to RGB16 validates the planes
 and the destination like every other conversion

---
 src/y_p16_to_rgb16.rs            | 5 +++++
 src/y_p16_with_alpha_to_rgb16.rs | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/y_p16_to_rgb16.rs b/src/y_p16_to_rgb16.rs
index c017ceb..7e720ea 100644
--- a/src/y_p16_to_rgb16.rs
+++ b/src/y_p16_to_rgb16.rs
@@ -28,6 +28,7 @@
  */
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 use crate::neon::neon_y_p16_to_rgba16_row;
+use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::*;
 use crate::{YuvError, YuvGrayImage};
 use num_traits::AsPrimitive;
@@ -141,6 +142,10 @@ where
     let max_colors = (1 << bit_depth) - 1;
 
     let channels = cn.get_channels_count();
+
+    check_rgba_destination(rgba16, rgba_stride, image.width, image.height, channels)?;
+    image.check_constraints()?;
+
     let chroma_range = get_yuv_range(bit_depth, range);
     let kr_kb = matrix.get_kr_kb();
 
diff --git a/src/y_p16_with_alpha_to_rgb16.rs b/src/y_p16_with_alpha_to_rgb16.rs
index fa62d3b..3c0ced0 100644
--- a/src/y_p16_with_alpha_to_rgb16.rs
+++ b/src/y_p16_with_alpha_to_rgb16.rs
@@ -26,6 +26,7 @@
  * OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
+use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::*;
 use crate::{YuvError, YuvGrayAlphaImage};
 use num_traits::AsPrimitive;
@@ -58,6 +59,7 @@ where
 
     let channels = cn.get_channels_count();
 
+    check_rgba_destination(rgba16, rgba_stride, image.width, image.height, channels)?;
     image.check_constraints()?;
 
     assert!(
-- 
2.43.0


From 8b1583dd85cbe809f4df51f24a5f4c0c98802a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:56 +0000
Subject: [PATCH 39/63] fix: packed 4:2:2 images with a stride that does not
 match the buffer are rejected instead of panicking

---
 src/yuv_error.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/yuv_error.rs b/src/yuv_error.rs
index 0f9be9e..04cf000 100644
--- a/src/yuv_error.rs
+++ b/src/yuv_error.rs
@@ -155,14 +155,16 @@ pub(crate) fn check_yuv_packed422<V>(
     if width == 0 || height == 0 {
         return Err(YuvError::ZeroBaseSize);
     }
+    let row_size = 2 * (width as usize).next_multiple_of(2);
     check_overflow_v2(stride as usize, height as usize)?;
-    check_overflow_v2(width as usize, height as usize)?;
-    let full_size = if width % 2 == 0 {
-        2 * width as usize * height as usize
-    } else {
-        2 * (width as usize + 1) * height as usize
-    };
-    if data.len() != full_size {
+    check_overflow_v2(row_size, height as usize)?;
+    if (stride as usize) < row_size {
+        return Err(YuvError::MinimumStrideSizeMismatch(MismatchedSize {
+            expected: row_size,
+            received: stride as usize,
+        }));
+    }
+    if data.len() != row_size * height as usize || data.len() != stride as usize * height as usize {
         return Err(YuvError::PackedFrameSizeMismatch(MismatchedSize {
             expected: stride as usize * height as usize,
             received: data.len(),
-- 
2.43.0


From 83a6acede85d8619786fe9f322ce94fdaa9e8730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:58 +0000
Subject: [PATCH 40/63] fix: planar 4:2:0 to packed 4:2:2 takes the last odd
 row by its index, not from whatever follows the image

---
 src/yuv_to_yuy2.rs | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/yuv_to_yuy2.rs b/src/yuv_to_yuy2.rs
index cda8390..7520333 100644
--- a/src/yuv_to_yuy2.rs
+++ b/src/yuv_to_yuy2.rs
@@ -442,25 +442,18 @@ pub(crate) fn yuv_to_yuy2_impl<
         });
 
         if planar_image.height & 1 != 0 {
-            let rem_yuy = image
-                .yuy
-                .borrow_mut()
-                .chunks_exact_mut(image.yuy_stride as usize * 2)
-                .into_remainder();
-            let rem_y = planar_image
-                .y_plane
-                .chunks_exact(planar_image.y_stride as usize * 2)
-                .remainder();
-            let last_u = planar_image
-                .u_plane
-                .chunks_exact(planar_image.u_stride as usize)
-                .last()
-                .unwrap();
-            let last_v = planar_image
-                .v_plane
-                .chunks_exact(planar_image.v_stride as usize)
-                .last()
-                .unwrap();
+            // planes may be longer than the image, so the last row is addressed by its index
+            let last_row = planar_image.height as usize - 1;
+            let rem_yuy =
+                &mut image.yuy.borrow_mut()[last_row * image.yuy_stride as usize..][..yuy2_width];
+            let rem_y =
+                &planar_image.y_plane[last_row * planar_image.y_stride as usize..][..width as usize];
+            let last_u =
+                &planar_image.u_plane[last_row / 2 * planar_image.u_stride as usize..]
+                    [..(width as usize).div_ceil(2)];
+            let last_v =
+                &planar_image.v_plane[last_row / 2 * planar_image.v_stride as usize..]
+                    [..(width as usize).div_ceil(2)];
 
             let processed = V::process_wide_row::<SAMPLING, YUY2_TARGET>(
                 rem_yuy,
@@ -470,11 +463,6 @@ pub(crate) fn yuv_to_yuy2_impl<
                 width as usize,
             );
 
-            let rem_yuy = &mut rem_yuy[0..yuy2_width];
-            let rem_y = &rem_y[0..image.width as usize];
-            let last_u = &last_u[0..(image.width as usize).div_ceil(2)];
-            let last_v = &last_v[0..(image.width as usize).div_ceil(2)];
-
             for (((yuy2, y_src), u_src), v_src) in rem_yuy
                 .chunks_exact_mut(4)
                 .zip(rem_y.chunks_exact(2))
-- 
2.43.0


From f05e309d8257fcec4150debb61ff8ec54987ad7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 41/63] fix: WebAssembly NV24 and NV42 to RGB take U and V from
 their own samples in both halves of a block

---
 src/wasm32/yuv_nv_to_rgba.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wasm32/yuv_nv_to_rgba.rs b/src/wasm32/yuv_nv_to_rgba.rs
index 786b44d..5cb7642 100644
--- a/src/wasm32/yuv_nv_to_rgba.rs
+++ b/src/wasm32/yuv_nv_to_rgba.rs
@@ -102,8 +102,8 @@ pub(crate) unsafe fn wasm_yuv_nv_to_rgba_row<
                     uv_values = (uv_values.1, uv_values.0);
                 }
                 u_high_u16 = u16x8_extend_high_u8x16(uv_values.0);
-                v_high_u16 = u16x8_extend_high_u8x16(uv_values.0);
-                u_low_u16 = u16x8_extend_low_u8x16(uv_values.1);
+                v_high_u16 = u16x8_extend_high_u8x16(uv_values.1);
+                u_low_u16 = u16x8_extend_low_u8x16(uv_values.0);
                 v_low_u16 = u16x8_extend_low_u8x16(uv_values.1);
             }
         }
-- 
2.43.0


From 3746baeecc036b7b644cd66f9c1ef45909697f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 42/63] fix: an RGB plane whose stride times height does not
 fit usize is rejected on 32-bit targets

---
 src/yuv_error.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yuv_error.rs b/src/yuv_error.rs
index 04cf000..9aaa6a6 100644
--- a/src/yuv_error.rs
+++ b/src/yuv_error.rs
@@ -130,6 +130,7 @@ pub(crate) fn check_rgba_destination<V>(
         return Err(YuvError::ZeroBaseSize);
     }
     check_overflow_v3(width as usize, height as usize, channels)?;
+    check_overflow_v2(rgba_stride as usize, height as usize)?;
     if arr.len() < rgba_stride as usize * (height as usize - 1) + width as usize * channels {
         return Err(YuvError::DestinationSizeMismatch(MismatchedSize {
             expected: rgba_stride as usize * height as usize,
-- 
2.43.0


From 883eb03c4c03b1e695fb68de43d7886f6e58a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 43/63] fix: rotation and mirroring reject sizes whose products
 do not fit usize instead of passing them on

---
 src/geometry.rs  | 42 ++++++++++++++++++++++++++++++++++++++++++
 src/mirroring.rs | 10 +++++++++-
 2 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 511f612..3a6bf09 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -26,6 +26,7 @@
  * OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
+use crate::yuv_error::{check_overflow_v2, check_overflow_v3};
 use crate::YuvError;
 use fast_transpose::{
     rotate180_plane, rotate180_plane16, rotate180_plane16_with_alpha, rotate180_plane_with_alpha,
@@ -54,6 +55,31 @@ pub(crate) fn map_ft_result(result: Result<(), TransposeError>) -> Result<(), Yu
     }
 }
 
+/// `fast_transpose` multiplies sizes unchecked, products that do not fit `usize` must not reach it.
+#[inline]
+pub(crate) fn check_geometry(
+    src_stride: usize,
+    dst_stride: usize,
+    width: usize,
+    height: usize,
+    dst_height: usize,
+    channels: usize,
+) -> Result<(), YuvError> {
+    check_overflow_v2(src_stride, height)?;
+    check_overflow_v2(dst_stride, dst_height)?;
+    check_overflow_v3(width, height, channels)
+}
+
+impl RotationMode {
+    #[inline]
+    fn rotated_height(self, width: usize, height: usize) -> usize {
+        match self {
+            RotationMode::Rotate180 => height,
+            RotationMode::Rotate90 | RotationMode::Rotate270 => width,
+        }
+    }
+}
+
 // The SIMD transpositions of RGBA, CbCr, RGBA16 and 16-bit planes in `fast_transpose` 0.2 mix up
 // the rows of their last columns when no mode flops, hence `Rotate90` of these goes through
 // `transpose_arbitrary` and `transpose_arbitrary_grouped`.
@@ -112,6 +138,8 @@ pub fn rotate_rgba(
     height: usize,
     mode: RotationMode,
 ) -> Result<(), YuvError> {
+    let dst_height = mode.rotated_height(width, height);
+    check_geometry(src_stride, dst_stride, width, height, dst_height, 4)?;
     let rs = match mode {
         RotationMode::Rotate90 => transpose_arbitrary_grouped::<u8, 4>(
             src,
@@ -163,6 +191,8 @@ pub fn rotate_rgb(
     height: usize,
     mode: RotationMode,
 ) -> Result<(), YuvError> {
+    let dst_height = mode.rotated_height(width, height);
+    check_geometry(src_stride, dst_stride, width, height, dst_height, 3)?;
     let rs = match mode {
         RotationMode::Rotate90 => transpose_rgb(
             src,
@@ -214,6 +244,8 @@ pub fn rotate_cbcr(
     height: usize,
     mode: RotationMode,
 ) -> Result<(), YuvError> {
+    let dst_height = mode.rotated_height(width, height);
+    check_geometry(src_stride, dst_stride, width, height, dst_height, 2)?;
     let rs = match mode {
         RotationMode::Rotate90 => transpose_arbitrary_grouped::<u8, 2>(
             src,
@@ -267,6 +299,8 @@ pub fn rotate_plane(
     height: usize,
     mode: RotationMode,
 ) -> Result<(), YuvError> {
+    let dst_height = mode.rotated_height(width, height);
+    check_geometry(src_stride, dst_stride, width, height, dst_height, 1)?;
     let rs = match mode {
         RotationMode::Rotate90 => transpose_plane(
             src,
@@ -321,6 +355,8 @@ pub fn rotate_rgba16(
     height: usize,
     mode: RotationMode,
 ) -> Result<(), YuvError> {
+    let dst_height = mode.rotated_height(width, height);
+    check_geometry(src_stride, dst_stride, width, height, dst_height, 4)?;
     let rs = match mode {
         RotationMode::Rotate90 => transpose_arbitrary_grouped::<u16, 4>(
             src,
@@ -374,6 +410,8 @@ pub fn rotate_rgb16(
     height: usize,
     mode: RotationMode,
 ) -> Result<(), YuvError> {
+    let dst_height = mode.rotated_height(width, height);
+    check_geometry(src_stride, dst_stride, width, height, dst_height, 3)?;
     let rs = match mode {
         RotationMode::Rotate90 => transpose_rgb16(
             src,
@@ -425,6 +463,8 @@ pub fn rotate_cbcr16(
     height: usize,
     mode: RotationMode,
 ) -> Result<(), YuvError> {
+    let dst_height = mode.rotated_height(width, height);
+    check_geometry(src_stride, dst_stride, width, height, dst_height, 2)?;
     let rs = match mode {
         RotationMode::Rotate90 => transpose_plane16_with_alpha(
             src,
@@ -478,6 +518,8 @@ pub fn rotate_plane16(
     height: usize,
     mode: RotationMode,
 ) -> Result<(), YuvError> {
+    let dst_height = mode.rotated_height(width, height);
+    check_geometry(src_stride, dst_stride, width, height, dst_height, 1)?;
     let rs = match mode {
         RotationMode::Rotate90 => transpose_arbitrary(
             src,
diff --git a/src/mirroring.rs b/src/mirroring.rs
index 3eda646..e4af6d0 100644
--- a/src/mirroring.rs
+++ b/src/mirroring.rs
@@ -26,7 +26,7 @@
  * OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
-use crate::geometry::map_ft_result;
+use crate::geometry::{check_geometry, map_ft_result};
 use crate::YuvError;
 use fast_transpose::{
     flip_plane, flip_plane16, flip_plane16_with_alpha, flip_plane_with_alpha, flip_rgb, flip_rgb16,
@@ -66,6 +66,7 @@ pub fn mirror_rgba(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    check_geometry(src_stride, dst_stride, width, height, height, 4)?;
     let rs = match mode {
         MirrorMode::Vertical => flop_rgba(src, src_stride, dst, dst_stride, width, height),
         MirrorMode::Horizontal => flip_rgba(src, src_stride, dst, dst_stride, width, height),
@@ -98,6 +99,7 @@ pub fn mirror_rgb(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    check_geometry(src_stride, dst_stride, width, height, height, 3)?;
     let rs = match mode {
         MirrorMode::Vertical => flop_rgb(src, src_stride, dst, dst_stride, width, height),
         MirrorMode::Horizontal => flip_rgb(src, src_stride, dst, dst_stride, width, height),
@@ -130,6 +132,7 @@ pub fn mirror_cbcr(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    check_geometry(src_stride, dst_stride, width, height, height, 2)?;
     let rs = match mode {
         MirrorMode::Vertical => {
             flop_plane_with_alpha(src, src_stride, dst, dst_stride, width, height)
@@ -166,6 +169,7 @@ pub fn mirror_plane(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    check_geometry(src_stride, dst_stride, width, height, height, 1)?;
     let rs = match mode {
         MirrorMode::Vertical => flop_plane(src, src_stride, dst, dst_stride, width, height),
         MirrorMode::Horizontal => flip_plane(src, src_stride, dst, dst_stride, width, height),
@@ -198,6 +202,7 @@ pub fn mirror_rgba16(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    check_geometry(src_stride, dst_stride, width, height, height, 4)?;
     let rs = match mode {
         MirrorMode::Vertical => flop_rgba16(src, src_stride, dst, dst_stride, width, height),
         MirrorMode::Horizontal => flip_rgba16(src, src_stride, dst, dst_stride, width, height),
@@ -230,6 +235,7 @@ pub fn mirror_rgb16(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    check_geometry(src_stride, dst_stride, width, height, height, 3)?;
     let rs = match mode {
         MirrorMode::Vertical => flop_rgb16(src, src_stride, dst, dst_stride, width, height),
         MirrorMode::Horizontal => flip_rgb16(src, src_stride, dst, dst_stride, width, height),
@@ -262,6 +268,7 @@ pub fn mirror_cbcr16(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    check_geometry(src_stride, dst_stride, width, height, height, 2)?;
     let rs = match mode {
         MirrorMode::Vertical => {
             flop_plane16_with_alpha(src, src_stride, dst, dst_stride, width, height)
@@ -298,6 +305,7 @@ pub fn mirror_plane16(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    check_geometry(src_stride, dst_stride, width, height, height, 1)?;
     let rs = match mode {
         MirrorMode::Vertical => flop_plane16(src, src_stride, dst, dst_stride, width, height),
         MirrorMode::Horizontal => flip_plane16(src, src_stride, dst, dst_stride, width, height),
-- 
2.43.0


From 864fae4b1bdc45e95e795a4757b625405fc62938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 44/63] fix: packed 4:2:2 row sizes that do not fit usize are
 rejected on 32-bit targets

---
 src/yuv_error.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yuv_error.rs b/src/yuv_error.rs
index 9aaa6a6..d37a7b2 100644
--- a/src/yuv_error.rs
+++ b/src/yuv_error.rs
@@ -156,9 +156,10 @@ pub(crate) fn check_yuv_packed422<V>(
     if width == 0 || height == 0 {
         return Err(YuvError::ZeroBaseSize);
     }
-    let row_size = 2 * (width as usize).next_multiple_of(2);
+    let pairs = (width as usize).div_ceil(2);
     check_overflow_v2(stride as usize, height as usize)?;
-    check_overflow_v2(row_size, height as usize)?;
+    check_overflow_v3(pairs, 4, height as usize)?;
+    let row_size = 4 * pairs;
     if (stride as usize) < row_size {
         return Err(YuvError::MinimumStrideSizeMismatch(MismatchedSize {
             expected: row_size,
-- 
2.43.0


From 57a391b28f08e45768273106f5cba5d96496b162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 45/63] fix: f16 conversions check sizes as usize, not
 truncated to 32 bits

---
 src/f16_converter.rs | 10 +++++-----
 src/yuv_error.rs     | 31 ++++++++++++++++++++++++-------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/f16_converter.rs b/src/f16_converter.rs
index 0669d5f..9e4c5d1 100644
--- a/src/f16_converter.rs
+++ b/src/f16_converter.rs
@@ -26,7 +26,7 @@
  * OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
-use crate::yuv_error::check_rgba_destination;
+use crate::yuv_error::check_surface;
 use crate::YuvError;
 use core::f16;
 
@@ -217,8 +217,8 @@ fn convert_surface_to_f16<V: Copy + ConverterFactoryFloat16<V>, const CN: usize>
     width: usize,
     height: usize,
 ) -> Result<(), YuvError> {
-    check_rgba_destination(src, src_stride as u32, width as u32, height as u32, CN)?;
-    check_rgba_destination(dst, dst_stride as u32, width as u32, height as u32, CN)?;
+    check_surface(src, src_stride, width, height, CN)?;
+    check_surface(dst, dst_stride, width, height, CN)?;
 
     let converter = V::make_forward_converter(bit_depth);
 
@@ -243,8 +243,8 @@ fn convert_f16_surface_to_unsigned<V: Copy + ConverterFactoryFloat16<V>, const C
     width: usize,
     height: usize,
 ) -> Result<(), YuvError> {
-    check_rgba_destination(src, src_stride as u32, width as u32, height as u32, CN)?;
-    check_rgba_destination(dst, dst_stride as u32, width as u32, height as u32, CN)?;
+    check_surface(src, src_stride, width, height, CN)?;
+    check_surface(dst, dst_stride, width, height, CN)?;
 
     let converter = V::make_inverse_converter(bit_depth);
 
diff --git a/src/yuv_error.rs b/src/yuv_error.rs
index d37a7b2..d42b27c 100644
--- a/src/yuv_error.rs
+++ b/src/yuv_error.rs
@@ -125,22 +125,39 @@ pub(crate) fn check_rgba_destination<V>(
     width: u32,
     height: u32,
     channels: usize,
+) -> Result<(), YuvError> {
+    check_surface(
+        arr,
+        rgba_stride as usize,
+        width as usize,
+        height as usize,
+        channels,
+    )
+}
+
+#[inline]
+pub(crate) fn check_surface<V>(
+    arr: &[V],
+    stride: usize,
+    width: usize,
+    height: usize,
+    channels: usize,
 ) -> Result<(), YuvError> {
     if width == 0 || height == 0 {
         return Err(YuvError::ZeroBaseSize);
     }
-    check_overflow_v3(width as usize, height as usize, channels)?;
-    check_overflow_v2(rgba_stride as usize, height as usize)?;
-    if arr.len() < rgba_stride as usize * (height as usize - 1) + width as usize * channels {
+    check_overflow_v3(width, height, channels)?;
+    check_overflow_v2(stride, height)?;
+    if arr.len() < stride * (height - 1) + width * channels {
         return Err(YuvError::DestinationSizeMismatch(MismatchedSize {
-            expected: rgba_stride as usize * height as usize,
+            expected: stride * height,
             received: arr.len(),
         }));
     }
-    if (rgba_stride as usize) < (width as usize * channels) {
+    if stride < width * channels {
         return Err(YuvError::MinimumStrideSizeMismatch(MismatchedSize {
-            expected: width as usize * channels,
-            received: rgba_stride as usize,
+            expected: width * channels,
+            received: stride,
         }));
     }
     Ok(())
-- 
2.43.0


From 2bb5a91af0b76a69217d3a87d22650a4192786ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 46/63] fix: NEON channel shuffle fills alpha with 255 in the
 tail too when the source has none

---
 src/neon/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neon/utils.rs b/src/neon/utils.rs
index 1200a29..3b1bdbc 100644
--- a/src/neon/utils.rs
+++ b/src/neon/utils.rs
@@ -465,7 +465,7 @@ pub(crate) unsafe fn neon_vld_h_rgb<const ORIGINS: u8>(
                 g_values_u8 = rgb_values.1;
                 b_values_u8 = rgb_values.0;
             }
-            a_vals = vdup_n_u8(0);
+            a_vals = vdup_n_u8(255);
         }
         YuvSourceChannels::Rgba => {
             let rgb_values = vld4_u8(ptr);
-- 
2.43.0


From 5ff05ef79c00f7d1ef6ae3f4e6cf3ed3ef4f3407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 47/63] fix: NEON 16-bit gray to RGB computes its maximum
 without shifting out of u16

---
 src/neon/y_p16_to_rgba16.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neon/y_p16_to_rgba16.rs b/src/neon/y_p16_to_rgba16.rs
index e65e4c9..cef94d2 100644
--- a/src/neon/y_p16_to_rgba16.rs
+++ b/src/neon/y_p16_to_rgba16.rs
@@ -53,8 +53,8 @@ pub(crate) unsafe fn neon_y_p16_to_rgba16_row<
 
     let y_corr = vdupq_n_u16(range.bias_y as u16);
     let v_luma_coeff = vdupq_n_u16(transform.y_coef as u16);
-    let v_alpha = vdupq_n_u16((1 << BIT_DEPTH) - 1);
-    let v_max_values = vdupq_n_u16((1 << BIT_DEPTH) - 1);
+    let v_alpha = vdupq_n_u16(((1u32 << BIT_DEPTH) - 1) as u16);
+    let v_max_values = vdupq_n_u16(((1u32 << BIT_DEPTH) - 1) as u16);
     let rnd_base = vdupq_n_u32((1 << (PRECISION - 1)) - 1);
 
     let mut cx = start_cx;
-- 
2.43.0


From 981817a60ceda554c37a5f94cf1d996fd6530d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 48/63] fix: NEON RGB to gray without RDM adds the range offset
 at the scale of its sum

---
 src/neon/rgb_to_y.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neon/rgb_to_y.rs b/src/neon/rgb_to_y.rs
index f2da00d..02a9053 100644
--- a/src/neon/rgb_to_y.rs
+++ b/src/neon/rgb_to_y.rs
@@ -123,7 +123,8 @@ pub(crate) unsafe fn neon_rgb_to_y_row<const ORIGIN_CHANNELS: u8, const PRECISIO
     let source_channels: YuvSourceChannels = ORIGIN_CHANNELS.into();
     let channels = source_channels.get_channels_count();
 
-    let bias_y = range.bias_y as i32;
+    let rounding_const_bias: i32 = (1 << (PRECISION - 1)) - 1;
+    let bias_y = range.bias_y as i32 * (1 << PRECISION) + rounding_const_bias;
 
     let y_ptr = y_plane;
     let rgba_ptr = rgba.as_ptr();
-- 
2.43.0


From 5c22918aec4dd7a5dd6c920fc4a8f0b62c29368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 49/63] fix: NEON professional RGB to NV21 passes the chroma
 order, not the subsampling, to its kernel

---
 src/rgba_to_nv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rgba_to_nv.rs b/src/rgba_to_nv.rs
index 6fdf2c2..2c3adfd 100644
--- a/src/rgba_to_nv.rs
+++ b/src/rgba_to_nv.rs
@@ -257,7 +257,7 @@ impl<const ORIGIN_CHANNELS: u8, const UV_ORDER: u8, const SAMPLING: u8, const PR
             {
                 use crate::neon::neon_rgba_to_nv_prof420;
                 return SemiPlanar420EncoderProfessional {
-                    handler: Some(neon_rgba_to_nv_prof420::<ORIGIN_CHANNELS, SAMPLING>),
+                    handler: Some(neon_rgba_to_nv_prof420::<ORIGIN_CHANNELS, UV_ORDER>),
                 };
             }
             #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
-- 
2.43.0


From 7729af5e383fad865dfbd8848d3632a7d2b7a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 50/63] fix: saturate the chroma sums in the fast NEON NV to
 RGB converters instead of wrapping

---
 src/neon/yuv_nv_to_rgbx_fast.rs    | 32 +++++++--------
 src/neon/yuv_nv_to_rgbx_fast420.rs | 64 +++++++++++++++---------------
 2 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/src/neon/yuv_nv_to_rgbx_fast.rs b/src/neon/yuv_nv_to_rgbx_fast.rs
index 874a50c..2fd2780 100644
--- a/src/neon/yuv_nv_to_rgbx_fast.rs
+++ b/src/neon/yuv_nv_to_rgbx_fast.rs
@@ -110,14 +110,14 @@ pub(crate) unsafe fn neon_yuv_nv_to_rgba_fast_row<
         let yhw0 = vreinterpretq_s16_u16(vmull_high_u8(y_values0, y_coeff));
         let ylw0 = vreinterpretq_s16_u16(vmull_u8(vget_low_u8(y_values0), vget_low_u8(y_coeff)));
 
-        let g_c_hi0 = vmlal_s8(yhw0, v_high, g_coeff_1);
-        let g_c_lo0 = vmlal_s8(ylw0, v_low, g_coeff_1);
-        let r_high0 = vmlal_s8(yhw0, v_high, cr_coeff);
-        let r_low0 = vmlal_s8(ylw0, v_low, cr_coeff);
-        let g_low0 = vmlal_s8(g_c_lo0, u_low, g_coeff_2);
-        let g_high0 = vmlal_s8(g_c_hi0, u_high, g_coeff_2);
-        let b_high0 = vmlal_s8(yhw0, u_high, cb_coeff);
-        let b_low0 = vmlal_s8(ylw0, u_low, cb_coeff);
+        let g_c_hi0 = vqaddq_s16(yhw0, vmull_s8(v_high, g_coeff_1));
+        let g_c_lo0 = vqaddq_s16(ylw0, vmull_s8(v_low, g_coeff_1));
+        let r_high0 = vqaddq_s16(yhw0, vmull_s8(v_high, cr_coeff));
+        let r_low0 = vqaddq_s16(ylw0, vmull_s8(v_low, cr_coeff));
+        let g_low0 = vqaddq_s16(g_c_lo0, vmull_s8(u_low, g_coeff_2));
+        let g_high0 = vqaddq_s16(g_c_hi0, vmull_s8(u_high, g_coeff_2));
+        let b_high0 = vqaddq_s16(yhw0, vmull_s8(u_high, cb_coeff));
+        let b_low0 = vqaddq_s16(ylw0, vmull_s8(u_low, cb_coeff));
 
         let r_values0 = vcombine_u8(vqrshrun_n_s16::<6>(r_low0), vqrshrun_n_s16::<6>(r_high0));
         let g_values0 = vcombine_u8(vqrshrun_n_s16::<6>(g_low0), vqrshrun_n_s16::<6>(g_high0));
@@ -207,14 +207,14 @@ pub(crate) unsafe fn neon_yuv_nv_to_rgba_fast_row<
         let yhw0 = vreinterpretq_s16_u16(vmull_high_u8(y_values0, y_coeff));
         let ylw0 = vreinterpretq_s16_u16(vmull_u8(vget_low_u8(y_values0), vget_low_u8(y_coeff)));
 
-        let g_c_hi0 = vmlal_s8(yhw0, v_high, g_coeff_1);
-        let g_c_lo0 = vmlal_s8(ylw0, v_low, g_coeff_1);
-        let r_high0 = vmlal_s8(yhw0, v_high, cr_coeff);
-        let r_low0 = vmlal_s8(ylw0, v_low, cr_coeff);
-        let g_low0 = vmlal_s8(g_c_lo0, u_low, g_coeff_2);
-        let g_high0 = vmlal_s8(g_c_hi0, u_high, g_coeff_2);
-        let b_high0 = vmlal_s8(yhw0, u_high, cb_coeff);
-        let b_low0 = vmlal_s8(ylw0, u_low, cb_coeff);
+        let g_c_hi0 = vqaddq_s16(yhw0, vmull_s8(v_high, g_coeff_1));
+        let g_c_lo0 = vqaddq_s16(ylw0, vmull_s8(v_low, g_coeff_1));
+        let r_high0 = vqaddq_s16(yhw0, vmull_s8(v_high, cr_coeff));
+        let r_low0 = vqaddq_s16(ylw0, vmull_s8(v_low, cr_coeff));
+        let g_low0 = vqaddq_s16(g_c_lo0, vmull_s8(u_low, g_coeff_2));
+        let g_high0 = vqaddq_s16(g_c_hi0, vmull_s8(u_high, g_coeff_2));
+        let b_high0 = vqaddq_s16(yhw0, vmull_s8(u_high, cb_coeff));
+        let b_low0 = vqaddq_s16(ylw0, vmull_s8(u_low, cb_coeff));
 
         let r_values0 = vcombine_u8(vqrshrun_n_s16::<6>(r_low0), vqrshrun_n_s16::<6>(r_high0));
         let g_values0 = vcombine_u8(vqrshrun_n_s16::<6>(g_low0), vqrshrun_n_s16::<6>(g_high0));
diff --git a/src/neon/yuv_nv_to_rgbx_fast420.rs b/src/neon/yuv_nv_to_rgbx_fast420.rs
index 748a7a4..2be14a9 100644
--- a/src/neon/yuv_nv_to_rgbx_fast420.rs
+++ b/src/neon/yuv_nv_to_rgbx_fast420.rs
@@ -93,27 +93,27 @@ pub(crate) unsafe fn neon_yuv_nv_to_rgba_fast_row420<
         let u_low = vreinterpret_s8_u8(vzip1_u8(uv_values.0, uv_values.0));
         let v_low = vreinterpret_s8_u8(vzip1_u8(uv_values.1, uv_values.1));
 
-        let g_c_hi0 = vmlal_s8(yhw0, v_high, g_coeff_1);
-        let g_c_lo0 = vmlal_s8(ylw0, v_low, g_coeff_1);
-        let r_high0 = vmlal_s8(yhw0, v_high, cr_coeff);
-        let r_low0 = vmlal_s8(ylw0, v_low, cr_coeff);
-        let g_low0 = vmlal_s8(g_c_lo0, u_low, g_coeff_2);
-        let g_high0 = vmlal_s8(g_c_hi0, u_high, g_coeff_2);
-        let b_high0 = vmlal_s8(yhw0, u_high, cb_coeff);
-        let b_low0 = vmlal_s8(ylw0, u_low, cb_coeff);
+        let g_c_hi0 = vqaddq_s16(yhw0, vmull_s8(v_high, g_coeff_1));
+        let g_c_lo0 = vqaddq_s16(ylw0, vmull_s8(v_low, g_coeff_1));
+        let r_high0 = vqaddq_s16(yhw0, vmull_s8(v_high, cr_coeff));
+        let r_low0 = vqaddq_s16(ylw0, vmull_s8(v_low, cr_coeff));
+        let g_low0 = vqaddq_s16(g_c_lo0, vmull_s8(u_low, g_coeff_2));
+        let g_high0 = vqaddq_s16(g_c_hi0, vmull_s8(u_high, g_coeff_2));
+        let b_high0 = vqaddq_s16(yhw0, vmull_s8(u_high, cb_coeff));
+        let b_low0 = vqaddq_s16(ylw0, vmull_s8(u_low, cb_coeff));
 
         let r_values0 = vcombine_u8(vqrshrun_n_s16::<6>(r_low0), vqrshrun_n_s16::<6>(r_high0));
         let g_values0 = vcombine_u8(vqrshrun_n_s16::<6>(g_low0), vqrshrun_n_s16::<6>(g_high0));
         let b_values0 = vcombine_u8(vqrshrun_n_s16::<6>(b_low0), vqrshrun_n_s16::<6>(b_high0));
 
-        let g_c_hi1 = vmlal_s8(yhw1, v_high, g_coeff_1);
-        let g_c_lo1 = vmlal_s8(ylw1, v_low, g_coeff_1);
-        let r_high1 = vmlal_s8(yhw1, v_high, cr_coeff);
-        let r_low1 = vmlal_s8(ylw1, v_low, cr_coeff);
-        let b_high1 = vmlal_s8(yhw1, u_high, cb_coeff);
-        let g_high1 = vmlal_s8(g_c_hi1, u_high, g_coeff_2);
-        let b_low1 = vmlal_s8(ylw1, u_low, cb_coeff);
-        let g_low1 = vmlal_s8(g_c_lo1, u_low, g_coeff_2);
+        let g_c_hi1 = vqaddq_s16(yhw1, vmull_s8(v_high, g_coeff_1));
+        let g_c_lo1 = vqaddq_s16(ylw1, vmull_s8(v_low, g_coeff_1));
+        let r_high1 = vqaddq_s16(yhw1, vmull_s8(v_high, cr_coeff));
+        let r_low1 = vqaddq_s16(ylw1, vmull_s8(v_low, cr_coeff));
+        let b_high1 = vqaddq_s16(yhw1, vmull_s8(u_high, cb_coeff));
+        let g_high1 = vqaddq_s16(g_c_hi1, vmull_s8(u_high, g_coeff_2));
+        let b_low1 = vqaddq_s16(ylw1, vmull_s8(u_low, cb_coeff));
+        let g_low1 = vqaddq_s16(g_c_lo1, vmull_s8(u_low, g_coeff_2));
 
         let r_values1 = vcombine_u8(vqrshrun_n_s16::<6>(r_low1), vqrshrun_n_s16::<6>(r_high1));
         let g_values1 = vcombine_u8(vqrshrun_n_s16::<6>(g_low1), vqrshrun_n_s16::<6>(g_high1));
@@ -196,27 +196,27 @@ pub(crate) unsafe fn neon_yuv_nv_to_rgba_fast_row420<
         let u_low = vreinterpret_s8_u8(vzip1_u8(uv_values.0, uv_values.0));
         let v_low = vreinterpret_s8_u8(vzip1_u8(uv_values.1, uv_values.1));
 
-        let g_c_hi0 = vmlal_s8(yhw0, v_high, g_coeff_1);
-        let g_c_lo0 = vmlal_s8(ylw0, v_low, g_coeff_1);
-        let r_high0 = vmlal_s8(yhw0, v_high, cr_coeff);
-        let r_low0 = vmlal_s8(ylw0, v_low, cr_coeff);
-        let g_low0 = vmlal_s8(g_c_lo0, u_low, g_coeff_2);
-        let g_high0 = vmlal_s8(g_c_hi0, u_high, g_coeff_2);
-        let b_high0 = vmlal_s8(yhw0, u_high, cb_coeff);
-        let b_low0 = vmlal_s8(ylw0, u_low, cb_coeff);
+        let g_c_hi0 = vqaddq_s16(yhw0, vmull_s8(v_high, g_coeff_1));
+        let g_c_lo0 = vqaddq_s16(ylw0, vmull_s8(v_low, g_coeff_1));
+        let r_high0 = vqaddq_s16(yhw0, vmull_s8(v_high, cr_coeff));
+        let r_low0 = vqaddq_s16(ylw0, vmull_s8(v_low, cr_coeff));
+        let g_low0 = vqaddq_s16(g_c_lo0, vmull_s8(u_low, g_coeff_2));
+        let g_high0 = vqaddq_s16(g_c_hi0, vmull_s8(u_high, g_coeff_2));
+        let b_high0 = vqaddq_s16(yhw0, vmull_s8(u_high, cb_coeff));
+        let b_low0 = vqaddq_s16(ylw0, vmull_s8(u_low, cb_coeff));
 
         let r_values0 = vcombine_u8(vqrshrun_n_s16::<6>(r_low0), vqrshrun_n_s16::<6>(r_high0));
         let g_values0 = vcombine_u8(vqrshrun_n_s16::<6>(g_low0), vqrshrun_n_s16::<6>(g_high0));
         let b_values0 = vcombine_u8(vqrshrun_n_s16::<6>(b_low0), vqrshrun_n_s16::<6>(b_high0));
 
-        let g_c_hi1 = vmlal_s8(yhw1, v_high, g_coeff_1);
-        let g_c_lo1 = vmlal_s8(ylw1, v_low, g_coeff_1);
-        let r_high1 = vmlal_s8(yhw1, v_high, cr_coeff);
-        let r_low1 = vmlal_s8(ylw1, v_low, cr_coeff);
-        let b_high1 = vmlal_s8(yhw1, u_high, cb_coeff);
-        let g_high1 = vmlal_s8(g_c_hi1, u_high, g_coeff_2);
-        let b_low1 = vmlal_s8(ylw1, u_low, cb_coeff);
-        let g_low1 = vmlal_s8(g_c_lo1, u_low, g_coeff_2);
+        let g_c_hi1 = vqaddq_s16(yhw1, vmull_s8(v_high, g_coeff_1));
+        let g_c_lo1 = vqaddq_s16(ylw1, vmull_s8(v_low, g_coeff_1));
+        let r_high1 = vqaddq_s16(yhw1, vmull_s8(v_high, cr_coeff));
+        let r_low1 = vqaddq_s16(ylw1, vmull_s8(v_low, cr_coeff));
+        let b_high1 = vqaddq_s16(yhw1, vmull_s8(u_high, cb_coeff));
+        let g_high1 = vqaddq_s16(g_c_hi1, vmull_s8(u_high, g_coeff_2));
+        let b_low1 = vqaddq_s16(ylw1, vmull_s8(u_low, cb_coeff));
+        let g_low1 = vqaddq_s16(g_c_lo1, vmull_s8(u_low, g_coeff_2));
 
         let r_values1 = vcombine_u8(vqrshrun_n_s16::<6>(r_low1), vqrshrun_n_s16::<6>(r_high1));
         let g_values1 = vcombine_u8(vqrshrun_n_s16::<6>(g_low1), vqrshrun_n_s16::<6>(g_high1));
-- 
2.43.0


From d75d41f08302208b568928d3524b2fc8b2522250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 51/63] fix: NEON professional 10-bit bi-planar to 8-bit RGB
 splits CrCoeff, which does not fit 16 bits for SMPTE 240M

---
 src/neon/yuv_nv_p10_to_rgba_prof.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/neon/yuv_nv_p10_to_rgba_prof.rs b/src/neon/yuv_nv_p10_to_rgba_prof.rs
index 233761d..18f093d 100644
--- a/src/neon/yuv_nv_p10_to_rgba_prof.rs
+++ b/src/neon/yuv_nv_p10_to_rgba_prof.rs
@@ -65,14 +65,14 @@ pub(crate) unsafe fn neon_yuv_nv12_p10_to_rgba_row_prof<
 
     const PRECISION: i32 = 15;
 
-    // CbCoeff is almost always overflowing using 14 bits of precision, so we dividing it into 2 parts
-    // to avoid overflow
+    // CbCoeff is almost always overflowing using 14 bits of precision, and CrCoeff for some matrices,
+    // so we dividing them into 2 parts to avoid overflow
     // y_value + cb_coef * cb_value instead will be used:
     // y_value + (cb_coef - i16::MAX) * cb_value + i16::MAX * cb_value
 
     let weights_arr: [i16; 8] = [
         transform.y_coef as i16,
-        transform.cr_coef as i16,
+        (transform.cr_coef - i16::MAX as i32) as i16,
         (transform.cb_coef - i16::MAX as i32) as i16,
         i16::MAX,
         -transform.g_coeff_1 as i16,
@@ -107,11 +107,13 @@ pub(crate) unsafe fn neon_yuv_nv12_p10_to_rgba_row_prof<
         let y_low = vqdmlal_laneq_s16::<0>(base_val, vget_low_s16(y_values), v_weights);
 
         let mut bh = vqdmlal_laneq_s16::<2>(y_high, u_high, v_weights);
-        let rh = vqdmlal_laneq_s16::<1>(y_high, v_high, v_weights);
+        let mut rh = vqdmlal_laneq_s16::<1>(y_high, v_high, v_weights);
+        rh = vqdmlal_laneq_s16::<3>(rh, v_high, v_weights);
         let gh = vqdmlal_laneq_s16::<4>(y_high, v_high, v_weights);
         bh = vqdmlal_laneq_s16::<3>(bh, u_high, v_weights);
         let mut bl = vqdmlal_laneq_s16::<2>(y_low, u_low, v_weights);
-        let rl = vqdmlal_laneq_s16::<1>(y_low, v_low, v_weights);
+        let mut rl = vqdmlal_laneq_s16::<1>(y_low, v_low, v_weights);
+        rl = vqdmlal_laneq_s16::<3>(rl, v_low, v_weights);
         let gl = vqdmlal_laneq_s16::<4>(y_low, v_low, v_weights);
         bl = vqdmlal_laneq_s16::<3>(bl, u_low, v_weights);
         let ghi = vqdmlal_laneq_s16::<5>(gh, u_high, v_weights);
@@ -192,11 +194,13 @@ pub(crate) unsafe fn neon_yuv_nv12_p10_to_rgba_row_prof<
         let y_low = vqdmlal_laneq_s16::<0>(base_val, vget_low_s16(y_values), v_weights);
 
         let mut bh = vqdmlal_laneq_s16::<2>(y_high, u_high, v_weights);
-        let rh = vqdmlal_laneq_s16::<1>(y_high, v_high, v_weights);
+        let mut rh = vqdmlal_laneq_s16::<1>(y_high, v_high, v_weights);
+        rh = vqdmlal_laneq_s16::<3>(rh, v_high, v_weights);
         let gh = vqdmlal_laneq_s16::<4>(y_high, v_high, v_weights);
         bh = vqdmlal_laneq_s16::<3>(bh, u_high, v_weights);
         let mut bl = vqdmlal_laneq_s16::<2>(y_low, u_low, v_weights);
-        let rl = vqdmlal_laneq_s16::<1>(y_low, v_low, v_weights);
+        let mut rl = vqdmlal_laneq_s16::<1>(y_low, v_low, v_weights);
+        rl = vqdmlal_laneq_s16::<3>(rl, v_low, v_weights);
         let gl = vqdmlal_laneq_s16::<4>(y_low, v_low, v_weights);
         bl = vqdmlal_laneq_s16::<3>(bl, u_low, v_weights);
         let ghi = vqdmlal_laneq_s16::<5>(gh, u_high, v_weights);
-- 
2.43.0


From 4bcfed73e48c317b5e7d712a09f8367cc8c40017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 52/63] fix: NEON RDM 10-bit RGB to YUV clamps chroma at the
 range's floor, not at four times it

---
 src/neon/rgb_to_yuv_p16.rs     | 17 +++++++++--------
 src/neon/rgb_to_yuv_p16_420.rs |  9 +++++----
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/neon/rgb_to_yuv_p16.rs b/src/neon/rgb_to_yuv_p16.rs
index 3d2e1ba..56b56d1 100644
--- a/src/neon/rgb_to_yuv_p16.rs
+++ b/src/neon/rgb_to_yuv_p16.rs
@@ -415,6 +415,7 @@ pub(crate) unsafe fn neon_rgba_to_yuv_p16_rdm<
     let i_bias_y = vdupq_n_s16(range.bias_y as i16 * (1 << 2) + (1 << (SCALE - 1)) - 1);
     let uv_bias = vdupq_n_s16(bias_uv * (1 << 2) + (1 << (SCALE - 1)) - 1);
     let i_cap_y = vdupq_n_s16(range.range_y as i16 + range.bias_y as i16);
+    let i_floor_uv = vdupq_n_s16(range.bias_y as i16);
     let i_cap_uv = vdupq_n_s16(range.bias_y as i16 + range.range_uv as i16);
 
     let mut cx = start_cx;
@@ -457,8 +458,8 @@ pub(crate) unsafe fn neon_rgba_to_yuv_p16_rdm<
             cb_h = vqrdmlahq_laneq_s16::<5>(cb_h, vreinterpretq_s16_u16(b_values), v_weights);
             cr_h = vqrdmlahq_laneq_s16::<0>(cr_h, vreinterpretq_s16_u16(b_values), v_cr_b);
 
-            let cb_max = vmaxq_s16(vshrq_n_s16::<2>(cb_h), i_bias_y);
-            let cr_max = vmaxq_s16(vshrq_n_s16::<2>(cr_h), i_bias_y);
+            let cb_max = vmaxq_s16(vshrq_n_s16::<2>(cb_h), i_floor_uv);
+            let cr_max = vmaxq_s16(vshrq_n_s16::<2>(cr_h), i_floor_uv);
 
             let mut cb_vl = vreinterpretq_u16_s16(vminq_s16(cb_max, i_cap_uv));
             let mut cr_vl = vreinterpretq_u16_s16(vminq_s16(cr_max, i_cap_uv));
@@ -492,8 +493,8 @@ pub(crate) unsafe fn neon_rgba_to_yuv_p16_rdm<
             cbk = vqrdmlah_laneq_s16::<5>(cbk, b1, v_weights);
             crk = vqrdmlah_laneq_s16::<0>(crk, b1, v_cr_b);
 
-            let cb_max = vmax_s16(vshr_n_s16::<2>(cbk), vget_low_s16(i_bias_y));
-            let cr_max = vmax_s16(vshr_n_s16::<2>(crk), vget_low_s16(i_bias_y));
+            let cb_max = vmax_s16(vshr_n_s16::<2>(cbk), vget_low_s16(i_floor_uv));
+            let cr_max = vmax_s16(vshr_n_s16::<2>(crk), vget_low_s16(i_floor_uv));
 
             let mut cb = vreinterpret_u16_s16(vmin_s16(cb_max, vget_low_s16(i_cap_uv)));
             let mut cr = vreinterpret_u16_s16(vmin_s16(cr_max, vget_low_s16(i_cap_uv)));
@@ -578,8 +579,8 @@ pub(crate) unsafe fn neon_rgba_to_yuv_p16_rdm<
             cb_h = vqrdmlahq_laneq_s16::<5>(cb_h, vreinterpretq_s16_u16(b_values), v_weights);
             cr_h = vqrdmlahq_laneq_s16::<0>(cr_h, vreinterpretq_s16_u16(b_values), v_cr_b);
 
-            let cb_max = vmaxq_s16(vshrq_n_s16::<2>(cb_h), i_bias_y);
-            let cr_max = vmaxq_s16(vshrq_n_s16::<2>(cr_h), i_bias_y);
+            let cb_max = vmaxq_s16(vshrq_n_s16::<2>(cb_h), i_floor_uv);
+            let cr_max = vmaxq_s16(vshrq_n_s16::<2>(cr_h), i_floor_uv);
 
             let mut cb_vl = vreinterpretq_u16_s16(vminq_s16(cb_max, i_cap_uv));
             let mut cr_vl = vreinterpretq_u16_s16(vminq_s16(cr_max, i_cap_uv));
@@ -611,8 +612,8 @@ pub(crate) unsafe fn neon_rgba_to_yuv_p16_rdm<
             cbk = vqrdmlah_laneq_s16::<5>(cbk, b1, v_weights);
             crk = vqrdmlah_laneq_s16::<0>(crk, b1, v_cr_b);
 
-            let cb_max = vmax_s16(vshr_n_s16::<2>(cbk), vget_low_s16(i_bias_y));
-            let cr_max = vmax_s16(vshr_n_s16::<2>(crk), vget_low_s16(i_bias_y));
+            let cb_max = vmax_s16(vshr_n_s16::<2>(cbk), vget_low_s16(i_floor_uv));
+            let cr_max = vmax_s16(vshr_n_s16::<2>(crk), vget_low_s16(i_floor_uv));
 
             let mut cb = vreinterpret_u16_s16(vmin_s16(cb_max, vget_low_s16(i_cap_uv)));
             let mut cr = vreinterpret_u16_s16(vmin_s16(cr_max, vget_low_s16(i_cap_uv)));
diff --git a/src/neon/rgb_to_yuv_p16_420.rs b/src/neon/rgb_to_yuv_p16_420.rs
index eab6fed..cb48e4d 100644
--- a/src/neon/rgb_to_yuv_p16_420.rs
+++ b/src/neon/rgb_to_yuv_p16_420.rs
@@ -341,6 +341,7 @@ pub(crate) unsafe fn neon_rgba_to_yuv_p16_rdm_420<
 
     let i_bias_y = vdupq_n_s16(range.bias_y as i16 * (1 << 2) + (1 << (SCALE - 1)) - 1);
     let uv_bias = vdupq_n_s16(bias_uv * (1 << 2) + (1 << (SCALE - 1)) - 1);
+    let i_floor_uv = vdupq_n_s16(range.bias_y as i16);
     let i_cap_uv = vdupq_n_s16(range.bias_y as i16 + range.range_uv as i16);
     let i_cap_y = vdupq_n_s16(range.range_y as i16 + range.bias_y as i16);
 
@@ -412,8 +413,8 @@ pub(crate) unsafe fn neon_rgba_to_yuv_p16_rdm_420<
         cbk = vqrdmlah_laneq_s16::<5>(cbk, b1, v_weights);
         crk = vqrdmlah_laneq_s16::<0>(crk, b1, v_cr_b);
 
-        let cb_max = vmax_s16(vshr_n_s16::<2>(cbk), vget_low_s16(i_bias_y));
-        let cr_max = vmax_s16(vshr_n_s16::<2>(crk), vget_low_s16(i_bias_y));
+        let cb_max = vmax_s16(vshr_n_s16::<2>(cbk), vget_low_s16(i_floor_uv));
+        let cr_max = vmax_s16(vshr_n_s16::<2>(crk), vget_low_s16(i_floor_uv));
 
         let mut cb = vreinterpret_u16_s16(vmin_s16(cb_max, vget_low_s16(i_cap_uv)));
         let mut cr = vreinterpret_u16_s16(vmin_s16(cr_max, vget_low_s16(i_cap_uv)));
@@ -535,8 +536,8 @@ pub(crate) unsafe fn neon_rgba_to_yuv_p16_rdm_420<
         cbk = vqrdmlah_laneq_s16::<5>(cbk, b1, v_weights);
         crk = vqrdmlah_laneq_s16::<0>(crk, b1, v_cr_b);
 
-        let cb_max = vmax_s16(vshr_n_s16::<2>(cbk), vget_low_s16(i_bias_y));
-        let cr_max = vmax_s16(vshr_n_s16::<2>(crk), vget_low_s16(i_bias_y));
+        let cb_max = vmax_s16(vshr_n_s16::<2>(cbk), vget_low_s16(i_floor_uv));
+        let cr_max = vmax_s16(vshr_n_s16::<2>(crk), vget_low_s16(i_floor_uv));
 
         let mut cb = vreinterpret_u16_s16(vmin_s16(cb_max, vget_low_s16(i_cap_uv)));
         let mut cr = vreinterpret_u16_s16(vmin_s16(cr_max, vget_low_s16(i_cap_uv)));
-- 
2.43.0


From f3a43cb81cd574b83a64ff0f8636f32122baef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 53/63] fix: NEON high bit-depth with alpha to RGBA16 takes as
 many alpha samples as pixels in the tail

---
 src/neon/yuv_p16_to_rgba16_alpha.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neon/yuv_p16_to_rgba16_alpha.rs b/src/neon/yuv_p16_to_rgba16_alpha.rs
index b8239e2..afb6a4c 100644
--- a/src/neon/yuv_p16_to_rgba16_alpha.rs
+++ b/src/neon/yuv_p16_to_rgba16_alpha.rs
@@ -351,7 +351,7 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row<
         std::ptr::copy_nonoverlapping(
             a_ld_ptr.get_unchecked(cx..).as_ptr(),
             a_buffer.as_mut_ptr(),
-            ux_diff,
+            diff,
         );
 
         std::ptr::copy_nonoverlapping(
@@ -752,7 +752,7 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row_rdm<
         std::ptr::copy_nonoverlapping(
             a_ld_ptr.get_unchecked(cx..).as_ptr(),
             a_buffer.as_mut_ptr(),
-            ux_diff,
+            diff,
         );
 
         std::ptr::copy_nonoverlapping(
-- 
2.43.0


From 82923aff62b80d96c71af73ec502d5995a8bb8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 54/63] fix: NEON high bit-depth with alpha to RGBA16 reads the
 alpha plane in its byte order

---
 src/neon/yuv_p16_to_rgba16_alpha.rs | 40 +++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/neon/yuv_p16_to_rgba16_alpha.rs b/src/neon/yuv_p16_to_rgba16_alpha.rs
index afb6a4c..784e98b 100644
--- a/src/neon/yuv_p16_to_rgba16_alpha.rs
+++ b/src/neon/yuv_p16_to_rgba16_alpha.rs
@@ -204,8 +204,14 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row<
         let g_values1 = vminq_u16(vcombine_u16(g_low1, g_high1), v_max_values);
         let b_values1 = vminq_u16(vcombine_u16(b_low1, b_high1), v_max_values);
 
-        let a_values0 = vld1q_u16(a_ld_ptr.get_unchecked(cx..).as_ptr());
-        let a_values1 = vld1q_u16(a_ld_ptr.get_unchecked((cx + 8)..).as_ptr());
+        let a_values0 =
+            vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+                a_ld_ptr.get_unchecked(cx..).as_ptr(),
+            ));
+        let a_values1 =
+            vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+                a_ld_ptr.get_unchecked((cx + 8)..).as_ptr(),
+            ));
 
         neon_store_rgb16::<DESTINATION_CHANNELS>(
             rgba.get_unchecked_mut(cx * channels..).as_mut_ptr(),
@@ -236,7 +242,10 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row<
     }
 
     while cx + 8 < width as usize {
-        let a_values_l = vld1q_u16(a_ld_ptr.get_unchecked(cx..).as_ptr());
+        let a_values_l =
+            vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+                a_ld_ptr.get_unchecked(cx..).as_ptr(),
+            ));
 
         let y_values: int16x8_t = vreinterpretq_s16_u16(vqsubq_u16(
             vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
@@ -366,7 +375,10 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row<
             ux_diff,
         );
 
-        let a_values_l = vld1q_u16(a_buffer.as_ptr());
+        let a_values_l =
+            vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+                a_buffer.as_ptr(),
+            ));
 
         let y_values: int16x8_t = vreinterpretq_s16_u16(vqsubq_u16(
             vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
@@ -594,8 +606,14 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row_rdm<
             v_weights,
         );
 
-        let a_values0 = vld1q_u16(a_ld_ptr.get_unchecked(cx..).as_ptr());
-        let a_values1 = vld1q_u16(a_ld_ptr.get_unchecked((cx + 8)..).as_ptr());
+        let a_values0 =
+            vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+                a_ld_ptr.get_unchecked(cx..).as_ptr(),
+            ));
+        let a_values1 =
+            vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+                a_ld_ptr.get_unchecked((cx + 8)..).as_ptr(),
+            ));
 
         let rlv0 = vmaxq_s16(r_vals0, zeros);
         let glv0 = vmaxq_s16(g_vals0, zeros);
@@ -641,7 +659,10 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row_rdm<
     }
 
     while cx + 8 < width as usize {
-        let a_values_l = vld1q_u16(a_ld_ptr.get_unchecked(cx..).as_ptr());
+        let a_values_l =
+            vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+                a_ld_ptr.get_unchecked(cx..).as_ptr(),
+            ));
 
         let y_values: int16x8_t = vreinterpretq_s16_u16(vqsubq_u16(
             vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
@@ -767,7 +788,10 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row_rdm<
             ux_diff,
         );
 
-        let a_values_l = vld1q_u16(a_buffer.as_ptr());
+        let a_values_l =
+            vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+                a_buffer.as_ptr(),
+            ));
 
         let y_values: int16x8_t = vreinterpretq_s16_u16(vqsubq_u16(
             vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
-- 
2.43.0


From 278fb039e7ccec56462effbf19cd83db79c8d75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 55/63] fix: NEON 8-bit YUV with alpha premultiplies each half
 of a 32 pixel step with its own alpha

---
 src/neon/yuv_to_rgba_alpha.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/neon/yuv_to_rgba_alpha.rs b/src/neon/yuv_to_rgba_alpha.rs
index c34cf05..f435c76 100644
--- a/src/neon/yuv_to_rgba_alpha.rs
+++ b/src/neon/yuv_to_rgba_alpha.rs
@@ -251,13 +251,13 @@ unsafe fn neon_yuv_to_rgba_alpha_impl<
         let a_values = xvld1q_u8_x2(a_ptr.add(cx));
 
         if use_premultiply {
-            r_high = neon_premultiply_alpha(r_high, a_values.0);
-            g_high = neon_premultiply_alpha(g_high, a_values.0);
-            b_high = neon_premultiply_alpha(b_high, a_values.0);
+            r_high = neon_premultiply_alpha(r_high, a_values.1);
+            g_high = neon_premultiply_alpha(g_high, a_values.1);
+            b_high = neon_premultiply_alpha(b_high, a_values.1);
 
-            r_low = neon_premultiply_alpha(r_low, a_values.1);
-            g_low = neon_premultiply_alpha(g_low, a_values.1);
-            b_low = neon_premultiply_alpha(b_low, a_values.1);
+            r_low = neon_premultiply_alpha(r_low, a_values.0);
+            g_low = neon_premultiply_alpha(g_low, a_values.0);
+            b_low = neon_premultiply_alpha(b_low, a_values.0);
         }
 
         let dst_shift = cx * channels;
-- 
2.43.0


From f0894657363f420161f091b91fc183958c0b43ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 56/63] fix: NEON YCgCo to RGBA and BGRA stores opaque alpha

---
 src/neon/ycgco_to_rgb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neon/ycgco_to_rgb.rs b/src/neon/ycgco_to_rgb.rs
index 6a4cdcc..3992d6e 100644
--- a/src/neon/ycgco_to_rgb.rs
+++ b/src/neon/ycgco_to_rgb.rs
@@ -125,7 +125,7 @@ pub(crate) unsafe fn neon_ycgco_full_range_to_rgb<
             r_values,
             g_values,
             b_values,
-            vdupq_n_u8(0),
+            vdupq_n_u8(255),
         );
 
         cx += 16;
@@ -236,7 +236,7 @@ pub(crate) unsafe fn neon_ycgco_full_range_to_rgb<
             r_values,
             g_values,
             b_values,
-            vdupq_n_u8(0),
+            vdupq_n_u8(255),
         );
 
         let dst_shift = cx * channels;
-- 
2.43.0


From a0a12b15b6fadf3bc378064481b34f202a745947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 57/63] fix: NEON 8-bit YUV with alpha takes as many alpha
 samples as pixels in the tail

---
 src/neon/yuv_to_rgba_alpha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neon/yuv_to_rgba_alpha.rs b/src/neon/yuv_to_rgba_alpha.rs
index f435c76..bd1a8c4 100644
--- a/src/neon/yuv_to_rgba_alpha.rs
+++ b/src/neon/yuv_to_rgba_alpha.rs
@@ -411,7 +411,7 @@ unsafe fn neon_yuv_to_rgba_alpha_impl<
         std::ptr::copy_nonoverlapping(
             a_plane.get_unchecked(cx..).as_ptr(),
             a_buffer.as_mut_ptr(),
-            ux_diff,
+            diff,
         );
 
         std::ptr::copy_nonoverlapping(
-- 
2.43.0


From f4ee4e47d849a6a2a3116d12476f22d5ec4a265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 58/63] fix: NEON YUV444 to packed 4:2:2 averages the two
 pixels of each pair

---
 src/neon/yuv_to_yuy2.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/neon/yuv_to_yuy2.rs b/src/neon/yuv_to_yuy2.rs
index b4e9627..7a7c7ce 100644
--- a/src/neon/yuv_to_yuy2.rs
+++ b/src/neon/yuv_to_yuy2.rs
@@ -69,8 +69,8 @@ pub(crate) fn yuv_to_yuy2_neon_impl<const SAMPLING: u8, const YUY2_TARGET: usize
             let y_pixels = xvld1q_u8_x2(y_plane.as_ptr().add(y_pos));
 
             if chroma_subsampling == YuvChromaSubsampling::Yuv444 {
-                let full_u = xvld1q_u8_x2(u_plane.as_ptr().add(u_pos));
-                let full_v = xvld1q_u8_x2(v_plane.as_ptr().add(v_pos));
+                let full_u = vld2q_u8(u_plane.as_ptr().add(u_pos));
+                let full_v = vld2q_u8(v_plane.as_ptr().add(v_pos));
 
                 u_pixels = vrhaddq_u8(full_u.0, full_u.1);
                 v_pixels = vrhaddq_u8(full_v.0, full_v.1);
@@ -111,17 +111,11 @@ pub(crate) fn yuv_to_yuy2_neon_impl<const SAMPLING: u8, const YUY2_TARGET: usize
             y_pixels = vld1q_u8(y_plane.as_ptr().add(y_pos));
 
             if chroma_subsampling == YuvChromaSubsampling::Yuv444 {
-                let full_u = vld1q_u8(u_plane.as_ptr().add(u_pos));
-                let full_v = vld1q_u8(v_plane.as_ptr().add(v_pos));
+                let full_u = vld2_u8(u_plane.as_ptr().add(u_pos));
+                let full_v = vld2_u8(v_plane.as_ptr().add(v_pos));
 
-                let low_u = vget_low_u8(full_u);
-                let high_u = vget_high_u8(full_u);
-                u_pixels = vrhadd_u8(low_u, high_u);
-
-                let low_v = vget_low_u8(full_v);
-                let high_v = vget_high_u8(full_v);
-
-                v_pixels = vrhadd_u8(low_v, high_v);
+                u_pixels = vrhadd_u8(full_u.0, full_u.1);
+                v_pixels = vrhadd_u8(full_v.0, full_v.1);
             } else {
                 u_pixels = vld1_u8(u_plane.as_ptr().add(u_pos));
                 v_pixels = vld1_u8(v_plane.as_ptr().add(v_pos));
-- 
2.43.0


From 42211a4f84fe18ba754b36de7b484ac4c59ccdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 59/63] fix: NEON AR30 packing puts alpha and the RA30/BA30
 channels where the format has them, 10 bits each

---
 src/neon/ar30_utils.rs         | 16 ++++++++--------
 src/neon/yuv_nv_p10_to_ar30.rs |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/neon/ar30_utils.rs b/src/neon/ar30_utils.rs
index afedd9e..e35d5a0 100644
--- a/src/neon/ar30_utils.rs
+++ b/src/neon/ar30_utils.rs
@@ -42,8 +42,8 @@ pub(crate) unsafe fn vzipq_4_ar30<const AR30_TYPE: usize, const AR30_ORDER: usiz
     let ar_type: Rgb30 = AR30_TYPE.into();
     match ar_type {
         Rgb30::Ar30 | Rgb30::Ab30 => {
-            let mut a0 = vdupq_n_u32(3);
-            let mut a1 = vdupq_n_u32(3);
+            let mut a0 = vdupq_n_u32(3 << 30);
+            let mut a1 = vdupq_n_u32(3 << 30);
 
             let mut rw0 = vmovl_u16(vget_low_u16(v.2));
             let mut rw1 = vmovl_u16(vget_high_u16(v.2));
@@ -79,15 +79,15 @@ pub(crate) unsafe fn vzipq_4_ar30<const AR30_TYPE: usize, const AR30_ORDER: usiz
             }
         }
         Rgb30::Ra30 | Rgb30::Ba30 => {
-            let mut a0 = vdupq_n_u32(3 << 30);
-            let mut a1 = vdupq_n_u32(3 << 30);
+            let mut a0 = vdupq_n_u32(3);
+            let mut a1 = vdupq_n_u32(3);
 
-            let mut rw0 = vmovl_u16(vget_low_u16(v.2));
-            let mut rw1 = vmovl_u16(vget_high_u16(v.2));
+            let mut rw0 = vmovl_u16(vget_low_u16(v.0));
+            let mut rw1 = vmovl_u16(vget_high_u16(v.0));
             let gw0 = vmovl_u16(vget_low_u16(v.1));
             let gw1 = vmovl_u16(vget_high_u16(v.1));
-            let mut bw0 = vmovl_u16(vget_low_u16(v.0));
-            let mut bw1 = vmovl_u16(vget_high_u16(v.0));
+            let mut bw0 = vmovl_u16(vget_low_u16(v.2));
+            let mut bw1 = vmovl_u16(vget_high_u16(v.2));
 
             if ar_type == Rgb30::Ba30 {
                 std::mem::swap(&mut rw0, &mut bw0);
diff --git a/src/neon/yuv_nv_p10_to_ar30.rs b/src/neon/yuv_nv_p10_to_ar30.rs
index abeca28..d0c9dba 100644
--- a/src/neon/yuv_nv_p10_to_ar30.rs
+++ b/src/neon/yuv_nv_p10_to_ar30.rs
@@ -146,7 +146,7 @@ pub(crate) unsafe fn neon_yuv_nv12_p10_to_ar30_row<
             vqshrun_n_s32::<16>(glv)
         };
 
-        let v_max = vdupq_n_u16((1 << BIT_DEPTH) - 1);
+        let v_max = vdupq_n_u16((1 << 10) - 1);
 
         let rw = vminq_u16(vcombine_u16(r_low, r_high), v_max);
         let gw = vminq_u16(vcombine_u16(g_low, g_high), v_max);
@@ -260,7 +260,7 @@ pub(crate) unsafe fn neon_yuv_nv12_p10_to_ar30_row<
             vqshrun_n_s32::<16>(glv)
         };
 
-        let v_max = vdupq_n_u16((1 << BIT_DEPTH) - 1);
+        let v_max = vdupq_n_u16((1 << 10) - 1);
 
         let rw = vminq_u16(vcombine_u16(r_low, r_high), v_max);
         let gw = vminq_u16(vcombine_u16(g_low, g_high), v_max);
-- 
2.43.0


From cb95310bd566ba29ca3ec1bffd0070eb0b8f7e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 60/63] fix: NEON bi-planar 10/12-bit to AR30/RA30 splits
 CrCoeff, which does not fit 16 bits for SMPTE 240M

---
 src/neon/yuv_nv_p10_to_ar30.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/neon/yuv_nv_p10_to_ar30.rs b/src/neon/yuv_nv_p10_to_ar30.rs
index d0c9dba..1c25434 100644
--- a/src/neon/yuv_nv_p10_to_ar30.rs
+++ b/src/neon/yuv_nv_p10_to_ar30.rs
@@ -63,14 +63,14 @@ pub(crate) unsafe fn neon_yuv_nv12_p10_to_ar30_row<
 
     const PRECISION: i32 = 14;
 
-    // CbCoeff is almost always overflowing using 14 bits of precision, so we dividing it into 2 parts
-    // to avoid overflow
+    // CbCoeff is almost always overflowing using 14 bits of precision, and CrCoeff for some matrices,
+    // so we dividing them into 2 parts to avoid overflow
     // y_value + cb_coef * cb_value instead will be used:
     // y_value + (cb_coef - i16::MAX) * cb_value + i16::MAX * cb_value
 
     let weights_arr: [i16; 8] = [
         transform.y_coef as i16,
-        transform.cr_coef as i16,
+        (transform.cr_coef - i16::MAX as i32) as i16,
         (transform.cb_coef - i16::MAX as i32) as i16,
         i16::MAX,
         -transform.g_coeff_1 as i16,
@@ -103,11 +103,13 @@ pub(crate) unsafe fn neon_yuv_nv12_p10_to_ar30_row<
         let y_low = vmlal_laneq_s16::<0>(base_val, vget_low_s16(y_values), v_weights);
 
         let mut bh = vmlal_laneq_s16::<2>(y_high, u_high, v_weights);
-        let rh = vmlal_laneq_s16::<1>(y_high, v_high, v_weights);
+        let mut rh = vmlal_laneq_s16::<1>(y_high, v_high, v_weights);
+        rh = vmlal_laneq_s16::<3>(rh, v_high, v_weights);
         let gh = vmlal_laneq_s16::<4>(y_high, v_high, v_weights);
         bh = vmlal_laneq_s16::<3>(bh, u_high, v_weights);
         let mut bl = vmlal_laneq_s16::<2>(y_low, u_low, v_weights);
-        let rl = vmlal_laneq_s16::<1>(y_low, v_low, v_weights);
+        let mut rl = vmlal_laneq_s16::<1>(y_low, v_low, v_weights);
+        rl = vmlal_laneq_s16::<3>(rl, v_low, v_weights);
         let gl = vmlal_laneq_s16::<4>(y_low, v_low, v_weights);
         bl = vmlal_laneq_s16::<3>(bl, u_low, v_weights);
         let ghi = vmlal_laneq_s16::<5>(gh, u_high, v_weights);
@@ -217,11 +219,13 @@ pub(crate) unsafe fn neon_yuv_nv12_p10_to_ar30_row<
         let y_low = vmlal_laneq_s16::<0>(base_val, vget_low_s16(y_values), v_weights);
 
         let mut bh = vmlal_laneq_s16::<2>(y_high, u_high, v_weights);
-        let rh = vmlal_laneq_s16::<1>(y_high, v_high, v_weights);
+        let mut rh = vmlal_laneq_s16::<1>(y_high, v_high, v_weights);
+        rh = vmlal_laneq_s16::<3>(rh, v_high, v_weights);
         let gh = vmlal_laneq_s16::<4>(y_high, v_high, v_weights);
         bh = vmlal_laneq_s16::<3>(bh, u_high, v_weights);
         let mut bl = vmlal_laneq_s16::<2>(y_low, u_low, v_weights);
-        let rl = vmlal_laneq_s16::<1>(y_low, v_low, v_weights);
+        let mut rl = vmlal_laneq_s16::<1>(y_low, v_low, v_weights);
+        rl = vmlal_laneq_s16::<3>(rl, v_low, v_weights);
         let gl = vmlal_laneq_s16::<4>(y_low, v_low, v_weights);
         bl = vmlal_laneq_s16::<3>(bl, u_low, v_weights);
         let ghi = vmlal_laneq_s16::<5>(gh, u_high, v_weights);
-- 
2.43.0


From 04168cf32238f26885613a6ce7e70118742cc1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 61/63] fix: NEON high bit-depth YUV to f16 RGB clamps to the
 range of the bit depth

---
 src/neon/yuv_p16_to_rgba_f16.rs  | 39 +++++++++++++++++---------------
 src/neon/yuva_p16_to_rgba_f16.rs | 39 +++++++++++++++++---------------
 2 files changed, 42 insertions(+), 36 deletions(-)

diff --git a/src/neon/yuv_p16_to_rgba_f16.rs b/src/neon/yuv_p16_to_rgba_f16.rs
index c5898ed..b8e5b66 100644
--- a/src/neon/yuv_p16_to_rgba_f16.rs
+++ b/src/neon/yuv_p16_to_rgba_f16.rs
@@ -190,6 +190,9 @@ unsafe fn neon_yuv_p16_to_rgba_f16_impl<
 
     let base_val = vdupq_n_s32((1 << (PRECISION - 1)) - 1);
 
+    let v_max = vdupq_n_u16((1 << BIT_DEPTH) - 1);
+    let v_max_s32 = vdupq_n_s32((1 << BIT_DEPTH) - 1);
+
     let mut cx = start_cx;
     let mut ux = start_ux;
 
@@ -257,9 +260,9 @@ unsafe fn neon_yuv_p16_to_rgba_f16_impl<
             let b_low = vqshrun_n_s32::<PRECISION>(bl);
             let g_low = vqshrun_n_s32::<PRECISION>(vqdmlal_laneq_s16::<4>(gl, u_low, v_weights));
 
-            let rvu = vminq_u16(vcombine_u16(r_low, r_high), v_alpha);
-            let gvu = vminq_u16(vcombine_u16(g_low, g_high), v_alpha);
-            let bvu = vminq_u16(vcombine_u16(b_low, b_high), v_alpha);
+            let rvu = vminq_u16(vcombine_u16(r_low, r_high), v_max);
+            let gvu = vminq_u16(vcombine_u16(g_low, g_high), v_max);
+            let bvu = vminq_u16(vcombine_u16(b_low, b_high), v_max);
 
             let mut r_values = xvcvtq_f16_u16(rvu);
             let mut g_values = xvcvtq_f16_u16(gvu);
@@ -288,13 +291,13 @@ unsafe fn neon_yuv_p16_to_rgba_f16_impl<
 
             let zeros = vdupq_n_s32(0);
 
-            r_high = vmaxq_s32(r_high, zeros);
-            g_high = vmaxq_s32(g_high, zeros);
-            b_high = vmaxq_s32(b_high, zeros);
+            r_high = vminq_s32(vmaxq_s32(r_high, zeros), v_max_s32);
+            g_high = vminq_s32(vmaxq_s32(g_high, zeros), v_max_s32);
+            b_high = vminq_s32(vmaxq_s32(b_high, zeros), v_max_s32);
 
-            r_low = vmaxq_s32(r_low, zeros);
-            g_low = vmaxq_s32(g_low, zeros);
-            b_low = vmaxq_s32(b_low, zeros);
+            r_low = vminq_s32(vmaxq_s32(r_low, zeros), v_max_s32);
+            g_low = vminq_s32(vmaxq_s32(g_low, zeros), v_max_s32);
+            b_low = vminq_s32(vmaxq_s32(b_low, zeros), v_max_s32);
 
             let mut r_high = vcvtq_f32_s32(r_high);
             let mut g_high = vcvtq_f32_s32(g_high);
@@ -442,9 +445,9 @@ unsafe fn neon_yuv_p16_to_rgba_f16_impl<
             let b_low = vqshrun_n_s32::<PRECISION>(bl);
             let g_low = vqshrun_n_s32::<PRECISION>(vqdmlal_laneq_s16::<4>(gl, u_low, v_weights));
 
-            let rvu = vminq_u16(vcombine_u16(r_low, r_high), v_alpha);
-            let gvu = vminq_u16(vcombine_u16(g_low, g_high), v_alpha);
-            let bvu = vminq_u16(vcombine_u16(b_low, b_high), v_alpha);
+            let rvu = vminq_u16(vcombine_u16(r_low, r_high), v_max);
+            let gvu = vminq_u16(vcombine_u16(g_low, g_high), v_max);
+            let bvu = vminq_u16(vcombine_u16(b_low, b_high), v_max);
 
             let mut r_values = xvcvtq_f16_u16(rvu);
             let mut g_values = xvcvtq_f16_u16(gvu);
@@ -473,13 +476,13 @@ unsafe fn neon_yuv_p16_to_rgba_f16_impl<
 
             let zeros = vdupq_n_s32(0);
 
-            r_high = vmaxq_s32(r_high, zeros);
-            g_high = vmaxq_s32(g_high, zeros);
-            b_high = vmaxq_s32(b_high, zeros);
+            r_high = vminq_s32(vmaxq_s32(r_high, zeros), v_max_s32);
+            g_high = vminq_s32(vmaxq_s32(g_high, zeros), v_max_s32);
+            b_high = vminq_s32(vmaxq_s32(b_high, zeros), v_max_s32);
 
-            r_low = vmaxq_s32(r_low, zeros);
-            g_low = vmaxq_s32(g_low, zeros);
-            b_low = vmaxq_s32(b_low, zeros);
+            r_low = vminq_s32(vmaxq_s32(r_low, zeros), v_max_s32);
+            g_low = vminq_s32(vmaxq_s32(g_low, zeros), v_max_s32);
+            b_low = vminq_s32(vmaxq_s32(b_low, zeros), v_max_s32);
 
             let mut r_high = vcvtq_f32_s32(r_high);
             let mut g_high = vcvtq_f32_s32(g_high);
diff --git a/src/neon/yuva_p16_to_rgba_f16.rs b/src/neon/yuva_p16_to_rgba_f16.rs
index caab5cf..78802ad 100644
--- a/src/neon/yuva_p16_to_rgba_f16.rs
+++ b/src/neon/yuva_p16_to_rgba_f16.rs
@@ -186,6 +186,9 @@ unsafe fn neon_yuva_p16_to_rgba_f16_impl<
 
     let base_val = vdupq_n_s32((1 << (PRECISION - 1)) - 1);
 
+    let v_max = vdupq_n_u16((1 << BIT_DEPTH) - 1);
+    let v_max_s32 = vdupq_n_s32((1 << BIT_DEPTH) - 1);
+
     let mut cx = 0;
     let mut ux = 0;
 
@@ -255,9 +258,9 @@ unsafe fn neon_yuva_p16_to_rgba_f16_impl<
             let b_low = vqshrun_n_s32::<PRECISION>(bl);
             let g_low = vqshrun_n_s32::<PRECISION>(vqdmlal_laneq_s16::<4>(gl, u_low, v_weights));
 
-            let rvu = vminq_u16(vcombine_u16(r_low, r_high), v_alpha);
-            let gvu = vminq_u16(vcombine_u16(g_low, g_high), v_alpha);
-            let bvu = vminq_u16(vcombine_u16(b_low, b_high), v_alpha);
+            let rvu = vminq_u16(vcombine_u16(r_low, r_high), v_max);
+            let gvu = vminq_u16(vcombine_u16(g_low, g_high), v_max);
+            let bvu = vminq_u16(vcombine_u16(b_low, b_high), v_max);
 
             let mut r_values = xvcvtq_f16_u16(rvu);
             let mut g_values = xvcvtq_f16_u16(gvu);
@@ -288,13 +291,13 @@ unsafe fn neon_yuva_p16_to_rgba_f16_impl<
 
             let zeros = vdupq_n_s32(0);
 
-            r_high = vmaxq_s32(r_high, zeros);
-            g_high = vmaxq_s32(g_high, zeros);
-            b_high = vmaxq_s32(b_high, zeros);
+            r_high = vminq_s32(vmaxq_s32(r_high, zeros), v_max_s32);
+            g_high = vminq_s32(vmaxq_s32(g_high, zeros), v_max_s32);
+            b_high = vminq_s32(vmaxq_s32(b_high, zeros), v_max_s32);
 
-            r_low = vmaxq_s32(r_low, zeros);
-            g_low = vmaxq_s32(g_low, zeros);
-            b_low = vmaxq_s32(b_low, zeros);
+            r_low = vminq_s32(vmaxq_s32(r_low, zeros), v_max_s32);
+            g_low = vminq_s32(vmaxq_s32(g_low, zeros), v_max_s32);
+            b_low = vminq_s32(vmaxq_s32(b_low, zeros), v_max_s32);
 
             let ah = vmovl_high_u16(a_values);
             let al = vmovl_u16(vget_low_u16(a_values));
@@ -461,9 +464,9 @@ unsafe fn neon_yuva_p16_to_rgba_f16_impl<
             let b_low = vqshrun_n_s32::<PRECISION>(bl);
             let g_low = vqshrun_n_s32::<PRECISION>(vqdmlal_laneq_s16::<4>(gl, u_low, v_weights));
 
-            let rvu = vminq_u16(vcombine_u16(r_low, r_high), v_alpha);
-            let gvu = vminq_u16(vcombine_u16(g_low, g_high), v_alpha);
-            let bvu = vminq_u16(vcombine_u16(b_low, b_high), v_alpha);
+            let rvu = vminq_u16(vcombine_u16(r_low, r_high), v_max);
+            let gvu = vminq_u16(vcombine_u16(g_low, g_high), v_max);
+            let bvu = vminq_u16(vcombine_u16(b_low, b_high), v_max);
 
             let mut r_values = xvcvtq_f16_u16(rvu);
             let mut g_values = xvcvtq_f16_u16(gvu);
@@ -494,13 +497,13 @@ unsafe fn neon_yuva_p16_to_rgba_f16_impl<
 
             let zeros = vdupq_n_s32(0);
 
-            r_high = vmaxq_s32(r_high, zeros);
-            g_high = vmaxq_s32(g_high, zeros);
-            b_high = vmaxq_s32(b_high, zeros);
+            r_high = vminq_s32(vmaxq_s32(r_high, zeros), v_max_s32);
+            g_high = vminq_s32(vmaxq_s32(g_high, zeros), v_max_s32);
+            b_high = vminq_s32(vmaxq_s32(b_high, zeros), v_max_s32);
 
-            r_low = vmaxq_s32(r_low, zeros);
-            g_low = vmaxq_s32(g_low, zeros);
-            b_low = vmaxq_s32(b_low, zeros);
+            r_low = vminq_s32(vmaxq_s32(r_low, zeros), v_max_s32);
+            g_low = vminq_s32(vmaxq_s32(g_low, zeros), v_max_s32);
+            b_low = vminq_s32(vmaxq_s32(b_low, zeros), v_max_s32);
 
             let ah = vmovl_high_u16(a_values);
             let al = vmovl_u16(vget_low_u16(a_values));
-- 
2.43.0


From c1920184522c4d4979fb4ad051538a05706d699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 62/63] fix: NEON f16 to integer without fp16 keeps the halves
 of each 8 samples in order

---
 src/neon/f16_converter.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/neon/f16_converter.rs b/src/neon/f16_converter.rs
index f0fc977..d2896b2 100644
--- a/src/neon/f16_converter.rs
+++ b/src/neon/f16_converter.rs
@@ -337,8 +337,8 @@ impl SurfaceFloat16ToUnsigned<u8> for SurfaceF16ToUnsigned8NeonFallback {
             for (src, dst) in src.chunks_exact(8).zip(dst.chunks_exact_mut(8)) {
                 let items = xreinterpretq_f16_u16(vld1q_u16(src.as_ptr() as *const _));
 
-                let w0 = xvcvt_f32_f16(xvget_high_f16(items));
-                let w1 = xvcvt_f32_f16(xvget_low_f16(items));
+                let w0 = xvcvt_f32_f16(xvget_low_f16(items));
+                let w1 = xvcvt_f32_f16(xvget_high_f16(items));
 
                 let v0 = vmulq_f32(w0, v_scale);
                 let v1 = vmulq_f32(w1, v_scale);
@@ -367,8 +367,8 @@ impl SurfaceFloat16ToUnsigned<u8> for SurfaceF16ToUnsigned8NeonFallback {
                 );
 
                 let items = xreinterpretq_f16_u16(vld1q_u16(src_buffer.as_ptr() as *const _));
-                let w0 = xvcvt_f32_f16(xvget_high_f16(items));
-                let w1 = xvcvt_f32_f16(xvget_low_f16(items));
+                let w0 = xvcvt_f32_f16(xvget_low_f16(items));
+                let w1 = xvcvt_f32_f16(xvget_high_f16(items));
 
                 let v0 = vmulq_f32(w0, v_scale);
                 let v1 = vmulq_f32(w1, v_scale);
@@ -461,8 +461,8 @@ impl SurfaceFloat16ToUnsigned<u16> for SurfaceF16ToUnsigned16NeonFallback {
             let v_scale = vdupq_n_f32(((1 << bit_depth) - 1) as f32);
             for (src, dst) in src.chunks_exact(8).zip(dst.chunks_exact_mut(8)) {
                 let items = xreinterpretq_f16_u16(vld1q_u16(src.as_ptr() as *const _));
-                let j0 = xvcvt_f32_f16(xvget_high_f16(items));
-                let j1 = xvcvt_f32_f16(xvget_low_f16(items));
+                let j0 = xvcvt_f32_f16(xvget_low_f16(items));
+                let j1 = xvcvt_f32_f16(xvget_high_f16(items));
 
                 let v0 = vmulq_f32(j0, v_scale);
                 let v1 = vmulq_f32(j1, v_scale);
@@ -492,8 +492,8 @@ impl SurfaceFloat16ToUnsigned<u16> for SurfaceF16ToUnsigned16NeonFallback {
 
                 let items = xreinterpretq_f16_u16(vld1q_u16(src_buffer.as_ptr() as *const _));
 
-                let j0 = xvcvt_f32_f16(xvget_high_f16(items));
-                let j1 = xvcvt_f32_f16(xvget_low_f16(items));
+                let j0 = xvcvt_f32_f16(xvget_low_f16(items));
+                let j1 = xvcvt_f32_f16(xvget_high_f16(items));
 
                 let v0 = vmulq_f32(j0, v_scale);
                 let v1 = vmulq_f32(j1, v_scale);
-- 
2.43.0


From 7da4da49ec0936eca5419af5433278f3ef85759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:24 +0000
Subject: [PATCH 63/63] fix: alpha of planar YUVA to f16 RGBA is read in the
 byte order of its format

---
 src/yuva_p16_rgba_f16.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/yuva_p16_rgba_f16.rs b/src/yuva_p16_rgba_f16.rs
index 3515445..c391f37 100644
--- a/src/yuva_p16_rgba_f16.rs
+++ b/src/yuva_p16_rgba_f16.rs
@@ -281,7 +281,8 @@ fn yuv_p16_to_image_p16_ant<
                         y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                     ) as f16
                         * default_scale;
-                    let a0 = a_src[0] as f16 * default_scale;
+                    let a0 =
+                        to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[0], msb_shift) as f16 * default_scale;
 
                     let rgba0 = &mut rgba[0..channels];
 
@@ -303,7 +304,8 @@ fn yuv_p16_to_image_p16_ant<
                     ) as f16
                         * default_scale;
 
-                    let a1 = a_src[1] as f16 * default_scale;
+                    let a1 =
+                        to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[1], msb_shift) as f16 * default_scale;
 
                     let rgba1 = &mut rgba[channels..channels * 2];
 
@@ -330,7 +332,9 @@ fn yuv_p16_to_image_p16_ant<
                     let rgba = rgba.chunks_exact_mut(channels).last().unwrap();
                     let rgba0 = &mut rgba[0..channels];
 
-                    let a0 = (*a_plane.last().unwrap()) as f16 * default_scale;
+                    let a0 = to_ne::<ENDIANNESS, BYTES_POSITION>(*a_plane.last().unwrap(), msb_shift)
+                        as f16
+                        * default_scale;
 
                     let r0 = qrshr::<PRECISION, BIT_DEPTH>(y_value0 + cr_coef * cr_value) as f16
                         * default_scale;
@@ -409,7 +413,8 @@ fn yuv_p16_to_image_p16_ant<
                     ) as f16
                         * default_scale;
 
-                    let v_a = a_src as f16 * default_scale;
+                    let v_a =
+                        to_ne::<ENDIANNESS, BYTES_POSITION>(a_src, msb_shift) as f16 * default_scale;
 
                     rgba[dst_chans.get_r_channel_offset()] = r;
                     rgba[dst_chans.get_g_channel_offset()] = g;
-- 
2.43.0

