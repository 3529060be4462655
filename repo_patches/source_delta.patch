From 34632df5baf048455f06efc1d79e3c0336208a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 01/45] fix: use unsigned saturating subtraction for the luma
 bias (SSE tails, AVX-512 gray)

The luma bias was removed with a signed saturating subtraction, so every luma code below the bias wrapped to white and
codes above 127 saturated against the wrong limit.
---
 src/avx512bw/y_to_rgb.rs     | 4 ++--
 src/sse/y_to_rgba.rs         | 4 ++--
 src/sse/y_to_rgba_alpha.rs   | 2 +-
 src/sse/yuv_nv_to_rgba.rs    | 4 ++--
 src/sse/yuv_nv_to_rgba420.rs | 8 ++++----
 src/sse/yuv_nv_to_rgba422.rs | 4 ++--
 src/sse/yuv_to_rgba.rs       | 2 +-
 src/sse/yuv_to_rgba422.rs    | 2 +-
 8 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/avx512bw/y_to_rgb.rs b/src/avx512bw/y_to_rgb.rs
index ef3ee28..46e830c 100644
--- a/src/avx512bw/y_to_rgb.rs
+++ b/src/avx512bw/y_to_rgb.rs
@@ -104,7 +104,7 @@ unsafe fn avx512_y_to_rgb_row_impl<const DESTINATION_CHANNELS: u8, const HAS_VBM
     let v_alpha = _mm512_set1_epi8(255u8 as i8);
 
     while cx + 64 < width {
-        let y_s = _mm512_subs_epi8(_mm512_loadu_si512(y_ptr.add(cx) as *const i32), y_corr);
+        let y_s = _mm512_subs_epu8(_mm512_loadu_si512(y_ptr.add(cx) as *const i32), y_corr);
 
         let y10 = _mm512_expand8_unordered_to_10(y_s);
 
@@ -143,7 +143,7 @@ unsafe fn avx512_y_to_rgb_row_impl<const DESTINATION_CHANNELS: u8, const HAS_VBM
             diff,
         );
 
-        let y_s = _mm512_subs_epi8(_mm512_loadu_si512(y_buffer.as_ptr() as *const i32), y_corr);
+        let y_s = _mm512_subs_epu8(_mm512_loadu_si512(y_buffer.as_ptr() as *const i32), y_corr);
 
         let y10 = _mm512_expand8_unordered_to_10(y_s);
 
diff --git a/src/sse/y_to_rgba.rs b/src/sse/y_to_rgba.rs
index e0b899b..9b5a658 100644
--- a/src/sse/y_to_rgba.rs
+++ b/src/sse/y_to_rgba.rs
@@ -101,7 +101,7 @@ unsafe fn sse_y_to_rgba_row_impl<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
 
@@ -134,7 +134,7 @@ unsafe fn sse_y_to_rgba_row_impl<const DESTINATION_CHANNELS: u8>(
             diff,
         );
 
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_buffer.as_ptr()), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_buffer.as_ptr()), y_corr);
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
 
diff --git a/src/sse/y_to_rgba_alpha.rs b/src/sse/y_to_rgba_alpha.rs
index 2fad23b..c8ce57d 100644
--- a/src/sse/y_to_rgba_alpha.rs
+++ b/src/sse/y_to_rgba_alpha.rs
@@ -104,7 +104,7 @@ unsafe fn sse_y_to_rgba_alpha_row_impl<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
         let a_values = _mm_loadu_si64(a_plane.get_unchecked(cx..).as_ptr());
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
diff --git a/src/sse/yuv_nv_to_rgba.rs b/src/sse/yuv_nv_to_rgba.rs
index deb8fb5..394ffe0 100644
--- a/src/sse/yuv_nv_to_rgba.rs
+++ b/src/sse/yuv_nv_to_rgba.rs
@@ -264,7 +264,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl<
             }
         }
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
         let u_low = _mm_sub_epi16(u_low_u16, uv_corr);
         let v_low = _mm_sub_epi16(v_low_u16, uv_corr);
         let y_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
@@ -383,7 +383,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl<
             }
         }
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
         let u_low = _mm_sub_epi16(u_low_u16, uv_corr);
         let v_low = _mm_sub_epi16(v_low_u16, uv_corr);
         let y_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
diff --git a/src/sse/yuv_nv_to_rgba420.rs b/src/sse/yuv_nv_to_rgba420.rs
index 23240ef..5be0faa 100644
--- a/src/sse/yuv_nv_to_rgba420.rs
+++ b/src/sse/yuv_nv_to_rgba420.rs
@@ -190,8 +190,8 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let uv_values_ = _mm_loadu_si64(uv_ptr.add(uv_x));
 
-        let y_values0 = _mm_subs_epi8(y_vl0, y_corr);
-        let y_values1 = _mm_subs_epi8(y_vl1, y_corr);
+        let y_values0 = _mm_subs_epu8(y_vl0, y_corr);
+        let y_values1 = _mm_subs_epu8(y_vl1, y_corr);
         let (mut u, mut v) = _mm_deinterleave_x2_epi8(uv_values_, zeros);
 
         if order == YuvNVOrder::VU {
@@ -291,8 +291,8 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let uv_values_ = _mm_loadu_si64(uv_buffer.as_ptr());
 
-        let y_values0 = _mm_subs_epi8(y_vl0, y_corr);
-        let y_values1 = _mm_subs_epi8(y_vl1, y_corr);
+        let y_values0 = _mm_subs_epu8(y_vl0, y_corr);
+        let y_values1 = _mm_subs_epu8(y_vl1, y_corr);
         let (mut u, mut v) = _mm_deinterleave_x2_epi8(uv_values_, zeros);
 
         if order == YuvNVOrder::VU {
diff --git a/src/sse/yuv_nv_to_rgba422.rs b/src/sse/yuv_nv_to_rgba422.rs
index 6174767..60520b9 100644
--- a/src/sse/yuv_nv_to_rgba422.rs
+++ b/src/sse/yuv_nv_to_rgba422.rs
@@ -163,7 +163,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl422<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let distribute_shuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
 
         u = _mm_shuffle_epi8(u, distribute_shuffle);
         v = _mm_shuffle_epi8(v, distribute_shuffle);
@@ -238,7 +238,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl422<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let distribute_shuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
 
         u = _mm_shuffle_epi8(u, distribute_shuffle);
         v = _mm_shuffle_epi8(v, distribute_shuffle);
diff --git a/src/sse/yuv_to_rgba.rs b/src/sse/yuv_to_rgba.rs
index 32ab642..ea7da7e 100644
--- a/src/sse/yuv_to_rgba.rs
+++ b/src/sse/yuv_to_rgba.rs
@@ -176,7 +176,7 @@ unsafe fn sse_yuv_to_rgba_row_impl<const DESTINATION_CHANNELS: u8, const SAMPLIN
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_xx_load_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_xx_load_si64(y_ptr.add(cx)), y_corr);
 
         let (u_low_u16, v_low_u16);
 
diff --git a/src/sse/yuv_to_rgba422.rs b/src/sse/yuv_to_rgba422.rs
index b7ad4e2..f72f4df 100644
--- a/src/sse/yuv_to_rgba422.rs
+++ b/src/sse/yuv_to_rgba422.rs
@@ -157,7 +157,7 @@ unsafe fn sse_yuv_to_rgba_row_impl422<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_xx_load_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_xx_load_si64(y_ptr.add(cx)), y_corr);
 
         let reshuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-- 
2.43.0


From ee7f191ae7254a86d93e9e6fdfd9dc74c41f4643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 02/45] fix: saturate luma + chroma sums in the SIMD fast
 NV->RGB paths

y * coef + chroma * coef exceeds i16 for bright, saturated input (matrices with large coefficients), so the wrapped sum
was clamped to 0 instead of 255.
---
 src/avx2/yuv_nv_to_rgba_fast.rs        | 24 ++++++-------
 src/avx2/yuv_nv_to_rgba_fast420.rs     | 48 +++++++++++++-------------
 src/avx512bw/yuv_nv_to_rgba_fast420.rs | 48 +++++++++++++-------------
 src/sse/yuv_nv_to_rgba_fast.rs         | 24 ++++++-------
 src/sse/yuv_nv_to_rgba_fast420.rs      | 48 +++++++++++++-------------
 5 files changed, 96 insertions(+), 96 deletions(-)

diff --git a/src/avx2/yuv_nv_to_rgba_fast.rs b/src/avx2/yuv_nv_to_rgba_fast.rs
index 4ed1e6a..b81bf7d 100644
--- a/src/avx2/yuv_nv_to_rgba_fast.rs
+++ b/src/avx2/yuv_nv_to_rgba_fast.rs
@@ -167,13 +167,13 @@ unsafe fn avx_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm256_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm256_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm256_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_gh, b_c_hi);
-        let mut g_high0 = _mm256_sub_epi16(y_gh, g_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_gh, b_c_hi);
+        let mut g_high0 = _mm256_subs_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl, b_c_lo);
-        let mut g_low0 = _mm256_sub_epi16(y_gl, g_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl, b_c_lo);
+        let mut g_low0 = _mm256_subs_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
         b_low0 = _mm256_srai_epi16::<6>(b_low0);
@@ -302,13 +302,13 @@ unsafe fn avx_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm256_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm256_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm256_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_gh, b_c_hi);
-        let mut g_high0 = _mm256_sub_epi16(y_gh, g_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_gh, b_c_hi);
+        let mut g_high0 = _mm256_subs_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl, b_c_lo);
-        let mut g_low0 = _mm256_sub_epi16(y_gl, g_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl, b_c_lo);
+        let mut g_low0 = _mm256_subs_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
         b_low0 = _mm256_srai_epi16::<6>(b_low0);
diff --git a/src/avx2/yuv_nv_to_rgba_fast420.rs b/src/avx2/yuv_nv_to_rgba_fast420.rs
index 2793803..6584a10 100644
--- a/src/avx2/yuv_nv_to_rgba_fast420.rs
+++ b/src/avx2/yuv_nv_to_rgba_fast420.rs
@@ -125,13 +125,13 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm256_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm256_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm256_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm256_sub_epi16(y_g0, g_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_g0, b_c_hi);
+        let mut g_high0 = _mm256_subs_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm256_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm256_add_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm256_sub_epi16(y_g1, g_c_hi);
+        let mut r_high1 = _mm256_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm256_adds_epi16(y_g1, b_c_hi);
+        let mut g_high1 = _mm256_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm256_unpacklo_epi8(y_values0, _mm256_setzero_si256());
         let y_lo1 = _mm256_unpacklo_epi8(y_values1, _mm256_setzero_si256());
@@ -139,13 +139,13 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm256_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm256_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm256_sub_epi16(y_gl0, g_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl0, b_c_lo);
+        let mut g_low0 = _mm256_subs_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm256_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm256_add_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm256_sub_epi16(y_gl1, g_c_lo);
+        let mut r_low1 = _mm256_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm256_adds_epi16(y_gl1, b_c_lo);
+        let mut g_low1 = _mm256_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
         b_low0 = _mm256_srai_epi16::<6>(b_low0);
@@ -249,13 +249,13 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm256_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm256_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm256_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm256_sub_epi16(y_g0, g_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_g0, b_c_hi);
+        let mut g_high0 = _mm256_subs_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm256_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm256_add_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm256_sub_epi16(y_g1, g_c_hi);
+        let mut r_high1 = _mm256_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm256_adds_epi16(y_g1, b_c_hi);
+        let mut g_high1 = _mm256_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm256_unpacklo_epi8(y_values0, _mm256_setzero_si256());
         let y_lo1 = _mm256_unpacklo_epi8(y_values1, _mm256_setzero_si256());
@@ -263,13 +263,13 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm256_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm256_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm256_sub_epi16(y_gl0, g_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl0, b_c_lo);
+        let mut g_low0 = _mm256_subs_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm256_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm256_add_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm256_sub_epi16(y_gl1, g_c_lo);
+        let mut r_low1 = _mm256_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm256_adds_epi16(y_gl1, b_c_lo);
+        let mut g_low1 = _mm256_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
         b_low0 = _mm256_srai_epi16::<6>(b_low0);
diff --git a/src/avx512bw/yuv_nv_to_rgba_fast420.rs b/src/avx512bw/yuv_nv_to_rgba_fast420.rs
index 2270f4b..7e52afc 100644
--- a/src/avx512bw/yuv_nv_to_rgba_fast420.rs
+++ b/src/avx512bw/yuv_nv_to_rgba_fast420.rs
@@ -177,13 +177,13 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let r_c_hi = _mm512_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm512_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm512_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm512_add_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm512_sub_epi16(y_g0, g_c_hi);
+        let mut r_high0 = _mm512_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm512_adds_epi16(y_g0, b_c_hi);
+        let mut g_high0 = _mm512_subs_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm512_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm512_add_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm512_sub_epi16(y_g1, g_c_hi);
+        let mut r_high1 = _mm512_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm512_adds_epi16(y_g1, b_c_hi);
+        let mut g_high1 = _mm512_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm512_unpacklo_epi8(y_values0, _mm512_setzero_si512());
         let y_lo1 = _mm512_unpacklo_epi8(y_values1, _mm512_setzero_si512());
@@ -191,13 +191,13 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let y_gl0 = _mm512_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm512_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm512_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm512_add_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm512_sub_epi16(y_gl0, g_c_lo);
+        let mut r_low0 = _mm512_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm512_adds_epi16(y_gl0, b_c_lo);
+        let mut g_low0 = _mm512_subs_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm512_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm512_add_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm512_sub_epi16(y_gl1, g_c_lo);
+        let mut r_low1 = _mm512_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm512_adds_epi16(y_gl1, b_c_lo);
+        let mut g_low1 = _mm512_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm512_srai_epi16::<6>(r_low0);
         b_low0 = _mm512_srai_epi16::<6>(b_low0);
@@ -301,13 +301,13 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let r_c_hi = _mm512_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm512_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm512_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm512_add_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm512_sub_epi16(y_g0, g_c_hi);
+        let mut r_high0 = _mm512_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm512_adds_epi16(y_g0, b_c_hi);
+        let mut g_high0 = _mm512_subs_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm512_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm512_add_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm512_sub_epi16(y_g1, g_c_hi);
+        let mut r_high1 = _mm512_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm512_adds_epi16(y_g1, b_c_hi);
+        let mut g_high1 = _mm512_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm512_unpacklo_epi8(y_values0, _mm512_setzero_si512());
         let y_lo1 = _mm512_unpacklo_epi8(y_values1, _mm512_setzero_si512());
@@ -315,13 +315,13 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let y_gl0 = _mm512_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm512_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm512_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm512_add_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm512_sub_epi16(y_gl0, g_c_lo);
+        let mut r_low0 = _mm512_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm512_adds_epi16(y_gl0, b_c_lo);
+        let mut g_low0 = _mm512_subs_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm512_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm512_add_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm512_sub_epi16(y_gl1, g_c_lo);
+        let mut r_low1 = _mm512_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm512_adds_epi16(y_gl1, b_c_lo);
+        let mut g_low1 = _mm512_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm512_srai_epi16::<6>(r_low0);
         b_low0 = _mm512_srai_epi16::<6>(b_low0);
diff --git a/src/sse/yuv_nv_to_rgba_fast.rs b/src/sse/yuv_nv_to_rgba_fast.rs
index fea2de2..225161d 100644
--- a/src/sse/yuv_nv_to_rgba_fast.rs
+++ b/src/sse/yuv_nv_to_rgba_fast.rs
@@ -151,13 +151,13 @@ unsafe fn sse_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_gh, b_c_hi);
-        let mut g_high0 = _mm_sub_epi16(y_gh, g_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_gh, b_c_hi);
+        let mut g_high0 = _mm_subs_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl, b_c_lo);
-        let mut g_low0 = _mm_sub_epi16(y_gl, g_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl, b_c_lo);
+        let mut g_low0 = _mm_subs_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
         b_low0 = _mm_srai_epi16::<6>(b_low0);
@@ -265,13 +265,13 @@ unsafe fn sse_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_gh, b_c_hi);
-        let mut g_high0 = _mm_sub_epi16(y_gh, g_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_gh, b_c_hi);
+        let mut g_high0 = _mm_subs_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl, b_c_lo);
-        let mut g_low0 = _mm_sub_epi16(y_gl, g_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl, b_c_lo);
+        let mut g_low0 = _mm_subs_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
         b_low0 = _mm_srai_epi16::<6>(b_low0);
diff --git a/src/sse/yuv_nv_to_rgba_fast420.rs b/src/sse/yuv_nv_to_rgba_fast420.rs
index d58f035..5d96025 100644
--- a/src/sse/yuv_nv_to_rgba_fast420.rs
+++ b/src/sse/yuv_nv_to_rgba_fast420.rs
@@ -121,13 +121,13 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm_sub_epi16(y_g0, g_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_g0, b_c_hi);
+        let mut g_high0 = _mm_subs_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm_add_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm_sub_epi16(y_g1, g_c_hi);
+        let mut r_high1 = _mm_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm_adds_epi16(y_g1, b_c_hi);
+        let mut g_high1 = _mm_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm_unpacklo_epi8(y_values0, _mm_setzero_si128());
         let y_lo1 = _mm_unpacklo_epi8(y_values1, _mm_setzero_si128());
@@ -135,13 +135,13 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm_sub_epi16(y_gl0, g_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl0, b_c_lo);
+        let mut g_low0 = _mm_subs_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm_add_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm_sub_epi16(y_gl1, g_c_lo);
+        let mut r_low1 = _mm_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm_adds_epi16(y_gl1, b_c_lo);
+        let mut g_low1 = _mm_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
         b_low0 = _mm_srai_epi16::<6>(b_low0);
@@ -245,13 +245,13 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm_sub_epi16(y_g0, g_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_g0, b_c_hi);
+        let mut g_high0 = _mm_subs_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm_add_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm_sub_epi16(y_g1, g_c_hi);
+        let mut r_high1 = _mm_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm_adds_epi16(y_g1, b_c_hi);
+        let mut g_high1 = _mm_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm_unpacklo_epi8(y_values0, _mm_setzero_si128());
         let y_lo1 = _mm_unpacklo_epi8(y_values1, _mm_setzero_si128());
@@ -259,13 +259,13 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm_sub_epi16(y_gl0, g_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl0, b_c_lo);
+        let mut g_low0 = _mm_subs_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm_add_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm_sub_epi16(y_gl1, g_c_lo);
+        let mut r_low1 = _mm_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm_adds_epi16(y_gl1, b_c_lo);
+        let mut g_low1 = _mm_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
         b_low0 = _mm_srai_epi16::<6>(b_low0);
-- 
2.43.0


From da4fc6b09b47f5f6c216ed446d3ff674fda59f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:37 +0000
Subject: [PATCH 03/45] fix: do not run the SIMD professional NV decoders when
 the Cr coefficient exceeds i16

At 14 bit precision Cr of SMPTE 240M (limited) is 34056 and wrapped to a negative multiplier; such transforms now take
the scalar rows.
---
 src/yuv_nv_to_rgba.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/yuv_nv_to_rgba.rs b/src/yuv_nv_to_rgba.rs
index 8be088e..4c3ecd4 100644
--- a/src/yuv_nv_to_rgba.rs
+++ b/src/yuv_nv_to_rgba.rs
@@ -393,7 +393,11 @@ macro_rules! impl_row_biplanar_inversion_handler {
                 chroma: YuvChromaRange,
                 transform: &CbCrInverseTransform<i32>,
             ) -> ProcessedOffset {
-                if let Some(handler) = self.handler {
+                // SIMD rows keep the Cr coefficient in i16
+                if let Some(handler) = self
+                    .handler
+                    .filter(|_| transform.cr_coef <= i16::MAX as i32)
+                {
                     unsafe {
                         return handler(
                             &chroma,
@@ -469,7 +473,11 @@ macro_rules! impl_row_biplanar_inversion_420_handler {
                 chroma: YuvChromaRange,
                 transform: &CbCrInverseTransform<i32>,
             ) -> ProcessedOffset {
-                if let Some(handler) = self.handler {
+                // SIMD rows keep the Cr coefficient in i16
+                if let Some(handler) = self
+                    .handler
+                    .filter(|_| transform.cr_coef <= i16::MAX as i32)
+                {
                     unsafe {
                         return handler(
                             &chroma,
-- 
2.43.0


From 8cf46b879c92016800b276e2cdaca9e8bb75964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:37 +0000
Subject: [PATCH 04/45] fix: use the Cb coefficient for blue in the 8-pixel SSE
 NV12 4:2:0 row

---
 src/sse/yuv_nv_to_rgba420.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/yuv_nv_to_rgba420.rs b/src/sse/yuv_nv_to_rgba420.rs
index 5be0faa..bdf5d40 100644
--- a/src/sse/yuv_nv_to_rgba420.rs
+++ b/src/sse/yuv_nv_to_rgba420.rs
@@ -218,7 +218,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
         );
 
         let v_cr_lo = _mm_mulhrs_epi16(v_low, v_cr_coeff);
-        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cr_coeff);
+        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cb_coeff);
 
         let r_low0 = _mm_add_epi16(y_low0, v_cr_lo);
         let b_low0 = _mm_add_epi16(y_low0, v_cb_lo);
@@ -319,7 +319,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
         );
 
         let v_cr_lo = _mm_mulhrs_epi16(v_low, v_cr_coeff);
-        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cr_coeff);
+        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cb_coeff);
 
         let r_low0 = _mm_add_epi16(y_low0, v_cr_lo);
         let b_low0 = _mm_add_epi16(y_low0, v_cb_lo);
-- 
2.43.0


From e266acb25c5dbfd63ed8f2ce1257a13bb3b4c638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 05/45] fix: widen 16-bit chroma with 16-bit unpacks in the SSE
 bi-planar high-bit-depth row

Interleaving 32-bit pairs with zero put two neighbouring chroma samples in one madd lane and added them together.
---
 src/sse/yuv_nv_p16_to_rgb.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sse/yuv_nv_p16_to_rgb.rs b/src/sse/yuv_nv_p16_to_rgb.rs
index a3d77f3..a9d68a1 100644
--- a/src/sse/yuv_nv_p16_to_rgb.rs
+++ b/src/sse/yuv_nv_p16_to_rgb.rs
@@ -177,8 +177,8 @@ unsafe fn sse_yuv_nv_p16_to_rgba_row_impl<
                 let u_values_c = _mm_sub_epi16(u_vl, uv_corr);
                 let v_values_c = _mm_sub_epi16(v_vl, uv_corr);
 
-                let u_values_32 = _mm_unpacklo_epi32(u_values_c, _mm_setzero_si128());
-                let v_values_32 = _mm_unpacklo_epi32(v_values_c, _mm_setzero_si128());
+                let u_values_32 = _mm_unpacklo_epi16(u_values_c, _mm_setzero_si128());
+                let v_values_32 = _mm_unpacklo_epi16(v_values_c, _mm_setzero_si128());
 
                 u_high = _mm_unpackhi_epi32(u_values_32, u_values_32);
                 v_high = _mm_unpackhi_epi32(v_values_32, v_values_32);
@@ -213,8 +213,8 @@ unsafe fn sse_yuv_nv_p16_to_rgba_row_impl<
                 let v_values_c = _mm_sub_epi16(v_vl, uv_corr_q);
                 u_high = _mm_unpackhi_epi16(u_values_c, zeros);
                 v_high = _mm_unpackhi_epi16(v_values_c, zeros);
-                u_low = _mm_unpacklo_epi32(u_values_c, _mm_setzero_si128());
-                v_low = _mm_unpacklo_epi32(v_values_c, _mm_setzero_si128());
+                u_low = _mm_unpacklo_epi16(u_values_c, _mm_setzero_si128());
+                v_low = _mm_unpacklo_epi16(v_values_c, _mm_setzero_si128());
             }
         }
 
-- 
2.43.0


From fdbf5690eda6089ba167f88231cc0236b9f7f961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 06/45] fix: AVX2 RGB->Y 16-pixel tail converts all 16 pixels

The half-width path unpacked within 128-bit lanes, so pixels 8..15 of every tail were written as garbage/zero.
---
 src/avx2/rgb_to_y.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/avx2/rgb_to_y.rs b/src/avx2/rgb_to_y.rs
index f1d6cb3..b6beef1 100644
--- a/src/avx2/rgb_to_y.rs
+++ b/src/avx2/rgb_to_y.rs
@@ -29,7 +29,7 @@
 
 use crate::avx2::avx2_utils::{
     _mm256_load_deinterleave_half_rgb_for_yuv, _mm256_load_deinterleave_rgb_for_yuv,
-    _mm256_sqrdmlah_dot,
+    _mm256_sqrdmlah_dot, avx2_pack_u16, shuffle,
 };
 use crate::yuv_support::{CbCrForwardTransform, YuvChromaRange, YuvSourceChannels};
 #[cfg(target_arch = "x86")]
@@ -37,6 +37,13 @@ use std::arch::x86::*;
 #[cfg(target_arch = "x86_64")]
 use std::arch::x86_64::*;
 
+/// Duplicates each of the low 16 bytes into a 16-bit lane, in order across both 128-bit halves.
+#[inline(always)]
+unsafe fn avx2_dup_lo_u8(v: __m256i) -> __m256i {
+    let v = _mm256_permute4x64_epi64::<{ shuffle(3, 1, 2, 0) }>(v);
+    _mm256_unpacklo_epi8(v, v)
+}
+
 pub(crate) fn avx2_rgb_to_y_row<const ORIGIN_CHANNELS: u8, const PRECISION: i32>(
     transform: &CbCrForwardTransform<i32>,
     range: &YuvChromaRange,
@@ -111,9 +118,9 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
             ORIGIN_CHANNELS,
         >(rgba.get_unchecked(px..).as_ptr());
 
-        let rl = _mm256_unpacklo_epi8(r_values, r_values);
-        let gl = _mm256_unpacklo_epi8(g_values, g_values);
-        let bl = _mm256_unpacklo_epi8(b_values, b_values);
+        let rl = avx2_dup_lo_u8(r_values);
+        let gl = avx2_dup_lo_u8(g_values);
+        let bl = avx2_dup_lo_u8(b_values);
 
         let r_low = _mm256_srli_epi16::<V_S>(rl);
         let g_low = _mm256_srli_epi16::<V_S>(gl);
@@ -127,7 +134,7 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
 
         let y_l = _mm256_srli_epi16::<A_E>(_mm256_add_epi16(y_bias, _mm256_add_epi16(yrgc, bhy)));
 
-        let y_yuv = _mm256_packus_epi16(y_l, _mm256_setzero_si256());
+        let y_yuv = avx2_pack_u16(y_l, _mm256_setzero_si256());
         _mm_storeu_si128(
             y_plane.get_unchecked_mut(cx..).as_mut_ptr() as *mut __m128i,
             _mm256_castsi256_si128(y_yuv),
@@ -151,9 +158,9 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
         let (r_values, g_values, b_values) =
             _mm256_load_deinterleave_half_rgb_for_yuv::<ORIGIN_CHANNELS>(src_buffer.as_ptr());
 
-        let rl = _mm256_unpacklo_epi8(r_values, r_values);
-        let gl = _mm256_unpacklo_epi8(g_values, g_values);
-        let bl = _mm256_unpacklo_epi8(b_values, b_values);
+        let rl = avx2_dup_lo_u8(r_values);
+        let gl = avx2_dup_lo_u8(g_values);
+        let bl = avx2_dup_lo_u8(b_values);
 
         let r_low = _mm256_srli_epi16::<V_S>(rl);
         let g_low = _mm256_srli_epi16::<V_S>(gl);
@@ -167,7 +174,7 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
 
         let y_l = _mm256_srli_epi16::<A_E>(_mm256_add_epi16(y_bias, _mm256_add_epi16(yrgc, bhy)));
 
-        let y_yuv = _mm256_packus_epi16(y_l, _mm256_setzero_si256());
+        let y_yuv = avx2_pack_u16(y_l, _mm256_setzero_si256());
         _mm_storeu_si128(
             y_buffer.as_mut_ptr() as *mut __m128i,
             _mm256_castsi256_si128(y_yuv),
-- 
2.43.0


From 46e4ddf3d474c9c6f26614fc24ee943898b9d0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 07/45] fix: seed the AVX-512 VNNI RGB->YUV 4:4:4/4:2:2
 accumulators with a 32-bit bias

---
 src/avx512bw/rgba_to_yuv_fast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avx512bw/rgba_to_yuv_fast.rs b/src/avx512bw/rgba_to_yuv_fast.rs
index 8715b4c..3ec1908 100644
--- a/src/avx512bw/rgba_to_yuv_fast.rs
+++ b/src/avx512bw/rgba_to_yuv_fast.rs
@@ -593,8 +593,8 @@ unsafe fn avx512_rgba_to_yuv_dot_rgba_impl_dot_impl<
         source_channels == YuvSourceChannels::Rgb || source_channels == YuvSourceChannels::Bgr;
 
     const A_E: u32 = 7;
-    let y_bias = _mm512_set1_epi16(range.bias_y as i16 * (1 << A_E) + (1 << (A_E - 1)) - 1);
-    let uv_bias = _mm512_set1_epi16(range.bias_uv as i16 * (1 << A_E) + (1 << (A_E - 1)) - 1);
+    let y_bias = _mm512_set1_epi32(range.bias_y as i32 * (1 << A_E) + (1 << (A_E - 1)) - 1);
+    let uv_bias = _mm512_set1_epi32(range.bias_uv as i32 * (1 << A_E) + (1 << (A_E - 1)) - 1);
 
     let y_weights = if is_rgbx {
         _mm512_set4r_epi8(
-- 
2.43.0


From 3e08d35b6f3f62161a10a0320d6879e90ac7468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 08/45] fix: near-white luma wraps to black in fast-mode
 RGB->YUV (saturate instead of overflowing i16/u8)

---
 src/avx2/rgba_to_nv_fast.rs         | 16 +++++++--------
 src/avx2/rgba_to_nv_fast420.rs      | 32 ++++++++++++++---------------
 src/avx2/rgba_to_yuv_fast.rs        | 16 +++++++--------
 src/avx2/rgba_to_yuv_fast420.rs     | 32 ++++++++++++++---------------
 src/avx512bw/rgba_to_yuv_fast.rs    | 16 +++++++--------
 src/avx512bw/rgba_to_yuv_fast420.rs | 32 ++++++++++++++---------------
 src/rgba_to_nv.rs                   | 20 +++++++++---------
 src/rgba_to_yuv.rs                  | 20 +++++++++---------
 src/sse/rgba_to_nv_fast.rs          |  8 ++++----
 src/sse/rgba_to_nv_fast420.rs       | 16 +++++++--------
 src/sse/rgba_to_yuv_fast.rs         |  8 ++++----
 src/sse/rgba_to_yuv_fast420.rs      | 16 +++++++--------
 12 files changed, 116 insertions(+), 116 deletions(-)

diff --git a/src/avx2/rgba_to_nv_fast.rs b/src/avx2/rgba_to_nv_fast.rs
index d058b06..6ed1fb0 100644
--- a/src/avx2/rgba_to_nv_fast.rs
+++ b/src/avx2/rgba_to_nv_fast.rs
@@ -206,8 +206,8 @@ unsafe fn avx2_rgba_to_nv_fast_rgba_impl_ubs<
         y0m = _mm256_add_epi16(y0m, y_bias);
         y1m = _mm256_add_epi16(y1m, y_bias);
 
-        y0m = _mm256_srai_epi16::<A_E>(y0m);
-        y1m = _mm256_srai_epi16::<A_E>(y1m);
+        y0m = _mm256_srli_epi16::<A_E>(y0m);
+        y1m = _mm256_srli_epi16::<A_E>(y1m);
 
         y0m = _mm256_permute4x64_epi64::<MASK>(y0m);
         y1m = _mm256_permute4x64_epi64::<MASK>(y1m);
@@ -398,8 +398,8 @@ unsafe fn avx2_rgba_to_nv_fast_rgba_impl_ubs<
         y0m = _mm256_add_epi16(y0m, y_bias);
         y1m = _mm256_add_epi16(y1m, y_bias);
 
-        y0m = _mm256_srai_epi16::<A_E>(y0m);
-        y1m = _mm256_srai_epi16::<A_E>(y1m);
+        y0m = _mm256_srli_epi16::<A_E>(y0m);
+        y1m = _mm256_srli_epi16::<A_E>(y1m);
 
         y0m = _mm256_permute4x64_epi64::<MASK>(y0m);
         y1m = _mm256_permute4x64_epi64::<MASK>(y1m);
@@ -668,8 +668,8 @@ unsafe fn avx2_rgba_to_nv_fast_rgba_impl_dot<
         let mut y0m = avx2_pack_u32(y0s, y1s);
         let mut y1m = avx2_pack_u32(y2s, y3s);
 
-        y0m = _mm256_srai_epi16::<A_E>(y0m);
-        y1m = _mm256_srai_epi16::<A_E>(y1m);
+        y0m = _mm256_srli_epi16::<A_E>(y0m);
+        y1m = _mm256_srli_epi16::<A_E>(y1m);
 
         let y_vl = avx2_pack_u16(y0m, y1m);
 
@@ -836,8 +836,8 @@ unsafe fn avx2_rgba_to_nv_fast_rgba_impl_dot<
         let mut y0m = avx2_pack_u32(y0s, y1s);
         let mut y1m = avx2_pack_u32(y2s, y3s);
 
-        y0m = _mm256_srai_epi16::<A_E>(y0m);
-        y1m = _mm256_srai_epi16::<A_E>(y1m);
+        y0m = _mm256_srli_epi16::<A_E>(y0m);
+        y1m = _mm256_srli_epi16::<A_E>(y1m);
 
         let y_vl = avx2_pack_u16(y0m, y1m);
 
diff --git a/src/avx2/rgba_to_nv_fast420.rs b/src/avx2/rgba_to_nv_fast420.rs
index 25d5f76..de6ed66 100644
--- a/src/avx2/rgba_to_nv_fast420.rs
+++ b/src/avx2/rgba_to_nv_fast420.rs
@@ -210,10 +210,10 @@ unsafe fn avx2_rgba_to_yuv_fast_rgba_impl_ubs420<const ORIGIN_CHANNELS: u8, cons
         y2m = _mm256_add_epi16(y2m, y_bias);
         y3m = _mm256_add_epi16(y3m, y_bias);
 
-        y0m = _mm256_srai_epi16::<A_E>(y0m);
-        y1m = _mm256_srai_epi16::<A_E>(y1m);
-        y2m = _mm256_srai_epi16::<A_E>(y2m);
-        y3m = _mm256_srai_epi16::<A_E>(y3m);
+        y0m = _mm256_srli_epi16::<A_E>(y0m);
+        y1m = _mm256_srli_epi16::<A_E>(y1m);
+        y2m = _mm256_srli_epi16::<A_E>(y2m);
+        y3m = _mm256_srli_epi16::<A_E>(y3m);
 
         y0m = _mm256_permute4x64_epi64::<MASK>(y0m);
         y1m = _mm256_permute4x64_epi64::<MASK>(y1m);
@@ -381,10 +381,10 @@ unsafe fn avx2_rgba_to_yuv_fast_rgba_impl_ubs420<const ORIGIN_CHANNELS: u8, cons
         y2m = _mm256_add_epi16(y2m, y_bias);
         y3m = _mm256_add_epi16(y3m, y_bias);
 
-        y0m = _mm256_srai_epi16::<A_E>(y0m);
-        y1m = _mm256_srai_epi16::<A_E>(y1m);
-        y2m = _mm256_srai_epi16::<A_E>(y2m);
-        y3m = _mm256_srai_epi16::<A_E>(y3m);
+        y0m = _mm256_srli_epi16::<A_E>(y0m);
+        y1m = _mm256_srli_epi16::<A_E>(y1m);
+        y2m = _mm256_srli_epi16::<A_E>(y2m);
+        y3m = _mm256_srli_epi16::<A_E>(y3m);
 
         y0m = _mm256_permute4x64_epi64::<MASK>(y0m);
         y1m = _mm256_permute4x64_epi64::<MASK>(y1m);
@@ -606,10 +606,10 @@ unsafe fn avx2_rgba_to_yuv_fast_rgba_impl_dot420<const ORIGIN_CHANNELS: u8, cons
         let mut y2m = avx2_pack_u32(y4s, y5s);
         let mut y3m = avx2_pack_u32(y6s, y7s);
 
-        y0m = _mm256_srai_epi16::<A_E>(y0m);
-        y1m = _mm256_srai_epi16::<A_E>(y1m);
-        y2m = _mm256_srai_epi16::<A_E>(y2m);
-        y3m = _mm256_srai_epi16::<A_E>(y3m);
+        y0m = _mm256_srli_epi16::<A_E>(y0m);
+        y1m = _mm256_srli_epi16::<A_E>(y1m);
+        y2m = _mm256_srli_epi16::<A_E>(y2m);
+        y3m = _mm256_srli_epi16::<A_E>(y3m);
 
         let y_vl0 = avx2_pack_u16(y0m, y1m);
         let y_vl1 = avx2_pack_u16(y2m, y3m);
@@ -759,10 +759,10 @@ unsafe fn avx2_rgba_to_yuv_fast_rgba_impl_dot420<const ORIGIN_CHANNELS: u8, cons
         let mut y2m = avx2_pack_u32(y4s, y5s);
         let mut y3m = avx2_pack_u32(y6s, y7s);
 
-        y0m = _mm256_srai_epi16::<A_E>(y0m);
-        y1m = _mm256_srai_epi16::<A_E>(y1m);
-        y2m = _mm256_srai_epi16::<A_E>(y2m);
-        y3m = _mm256_srai_epi16::<A_E>(y3m);
+        y0m = _mm256_srli_epi16::<A_E>(y0m);
+        y1m = _mm256_srli_epi16::<A_E>(y1m);
+        y2m = _mm256_srli_epi16::<A_E>(y2m);
+        y3m = _mm256_srli_epi16::<A_E>(y3m);
 
         let y_vl0 = avx2_pack_u16(y0m, y1m);
         let y_vl1 = avx2_pack_u16(y2m, y3m);
diff --git a/src/avx2/rgba_to_yuv_fast.rs b/src/avx2/rgba_to_yuv_fast.rs
index 11a3f27..7bda318 100644
--- a/src/avx2/rgba_to_yuv_fast.rs
+++ b/src/avx2/rgba_to_yuv_fast.rs
@@ -201,8 +201,8 @@ unsafe fn avx2_rgba_to_yuv_dot_rgba_impl_ubs<const ORIGIN_CHANNELS: u8, const SA
         y0m = _mm256_add_epi16(y0m, y_bias);
         y1m = _mm256_add_epi16(y1m, y_bias);
 
-        y0m = _mm256_srai_epi16::<A_E>(y0m);
-        y1m = _mm256_srai_epi16::<A_E>(y1m);
+        y0m = _mm256_srli_epi16::<A_E>(y0m);
+        y1m = _mm256_srli_epi16::<A_E>(y1m);
 
         y0m = _mm256_permute4x64_epi64::<MASK>(y0m);
         y1m = _mm256_permute4x64_epi64::<MASK>(y1m);
@@ -380,8 +380,8 @@ unsafe fn avx2_rgba_to_yuv_dot_rgba_impl_ubs<const ORIGIN_CHANNELS: u8, const SA
         y0m = _mm256_add_epi16(y0m, y_bias);
         y1m = _mm256_add_epi16(y1m, y_bias);
 
-        y0m = _mm256_srai_epi16::<A_E>(y0m);
-        y1m = _mm256_srai_epi16::<A_E>(y1m);
+        y0m = _mm256_srli_epi16::<A_E>(y0m);
+        y1m = _mm256_srli_epi16::<A_E>(y1m);
 
         y0m = _mm256_permute4x64_epi64::<MASK>(y0m);
         y1m = _mm256_permute4x64_epi64::<MASK>(y1m);
@@ -651,8 +651,8 @@ unsafe fn avx2_rgba_to_yuv_dot_rgba_impl_dot<const ORIGIN_CHANNELS: u8, const SA
         let mut y0m = avx2_pack_u32(y0s, y1s);
         let mut y1m = avx2_pack_u32(y2s, y3s);
 
-        y0m = _mm256_srai_epi16::<A_E>(y0m);
-        y1m = _mm256_srai_epi16::<A_E>(y1m);
+        y0m = _mm256_srli_epi16::<A_E>(y0m);
+        y1m = _mm256_srli_epi16::<A_E>(y1m);
 
         let y_vl = avx2_pack_u16(y0m, y1m);
 
@@ -806,8 +806,8 @@ unsafe fn avx2_rgba_to_yuv_dot_rgba_impl_dot<const ORIGIN_CHANNELS: u8, const SA
         let mut y0m = avx2_pack_u32(y0s, y1s);
         let mut y1m = avx2_pack_u32(y2s, y3s);
 
-        y0m = _mm256_srai_epi16::<A_E>(y0m);
-        y1m = _mm256_srai_epi16::<A_E>(y1m);
+        y0m = _mm256_srli_epi16::<A_E>(y0m);
+        y1m = _mm256_srli_epi16::<A_E>(y1m);
 
         let y_vl = avx2_pack_u16(y0m, y1m);
 
diff --git a/src/avx2/rgba_to_yuv_fast420.rs b/src/avx2/rgba_to_yuv_fast420.rs
index 341aaaf..0cfaf4e 100644
--- a/src/avx2/rgba_to_yuv_fast420.rs
+++ b/src/avx2/rgba_to_yuv_fast420.rs
@@ -215,10 +215,10 @@ unsafe fn avx2_rgba_to_yuv_dot_rgba_impl_ubs420<const ORIGIN_CHANNELS: u8>(
         y2m = _mm256_add_epi16(y2m, y_bias);
         y3m = _mm256_add_epi16(y3m, y_bias);
 
-        y0m = _mm256_srai_epi16::<A_E>(y0m);
-        y1m = _mm256_srai_epi16::<A_E>(y1m);
-        y2m = _mm256_srai_epi16::<A_E>(y2m);
-        y3m = _mm256_srai_epi16::<A_E>(y3m);
+        y0m = _mm256_srli_epi16::<A_E>(y0m);
+        y1m = _mm256_srli_epi16::<A_E>(y1m);
+        y2m = _mm256_srli_epi16::<A_E>(y2m);
+        y3m = _mm256_srli_epi16::<A_E>(y3m);
 
         y0m = _mm256_permute4x64_epi64::<MASK>(y0m);
         y1m = _mm256_permute4x64_epi64::<MASK>(y1m);
@@ -386,10 +386,10 @@ unsafe fn avx2_rgba_to_yuv_dot_rgba_impl_ubs420<const ORIGIN_CHANNELS: u8>(
         y2m = _mm256_add_epi16(y2m, y_bias);
         y3m = _mm256_add_epi16(y3m, y_bias);
 
-        y0m = _mm256_srai_epi16::<A_E>(y0m);
-        y1m = _mm256_srai_epi16::<A_E>(y1m);
-        y2m = _mm256_srai_epi16::<A_E>(y2m);
-        y3m = _mm256_srai_epi16::<A_E>(y3m);
+        y0m = _mm256_srli_epi16::<A_E>(y0m);
+        y1m = _mm256_srli_epi16::<A_E>(y1m);
+        y2m = _mm256_srli_epi16::<A_E>(y2m);
+        y3m = _mm256_srli_epi16::<A_E>(y3m);
 
         y0m = _mm256_permute4x64_epi64::<MASK>(y0m);
         y1m = _mm256_permute4x64_epi64::<MASK>(y1m);
@@ -620,10 +620,10 @@ unsafe fn avx2_rgba_to_yuv_dot_rgba_impl_dot420<const ORIGIN_CHANNELS: u8>(
         let mut y2m = avx2_pack_u32(y4s, y5s);
         let mut y3m = avx2_pack_u32(y6s, y7s);
 
-        y0m = _mm256_srai_epi16::<A_E>(y0m);
-        y1m = _mm256_srai_epi16::<A_E>(y1m);
-        y2m = _mm256_srai_epi16::<A_E>(y2m);
-        y3m = _mm256_srai_epi16::<A_E>(y3m);
+        y0m = _mm256_srli_epi16::<A_E>(y0m);
+        y1m = _mm256_srli_epi16::<A_E>(y1m);
+        y2m = _mm256_srli_epi16::<A_E>(y2m);
+        y3m = _mm256_srli_epi16::<A_E>(y3m);
 
         let y_vl0 = avx2_pack_u16(y0m, y1m);
         let y_vl1 = avx2_pack_u16(y2m, y3m);
@@ -773,10 +773,10 @@ unsafe fn avx2_rgba_to_yuv_dot_rgba_impl_dot420<const ORIGIN_CHANNELS: u8>(
         let mut y2m = avx2_pack_u32(y4s, y5s);
         let mut y3m = avx2_pack_u32(y6s, y7s);
 
-        y0m = _mm256_srai_epi16::<A_E>(y0m);
-        y1m = _mm256_srai_epi16::<A_E>(y1m);
-        y2m = _mm256_srai_epi16::<A_E>(y2m);
-        y3m = _mm256_srai_epi16::<A_E>(y3m);
+        y0m = _mm256_srli_epi16::<A_E>(y0m);
+        y1m = _mm256_srli_epi16::<A_E>(y1m);
+        y2m = _mm256_srli_epi16::<A_E>(y2m);
+        y3m = _mm256_srli_epi16::<A_E>(y3m);
 
         let y_vl0 = avx2_pack_u16(y0m, y1m);
         let y_vl1 = avx2_pack_u16(y2m, y3m);
diff --git a/src/avx512bw/rgba_to_yuv_fast.rs b/src/avx512bw/rgba_to_yuv_fast.rs
index 3ec1908..54ae63c 100644
--- a/src/avx512bw/rgba_to_yuv_fast.rs
+++ b/src/avx512bw/rgba_to_yuv_fast.rs
@@ -247,8 +247,8 @@ unsafe fn avx512_rgba_to_yuv_dot_rgba_impl_ubs<const ORIGIN_CHANNELS: u8, const
         y0m = _mm512_add_epi16(y0m, y_bias);
         y1m = _mm512_add_epi16(y1m, y_bias);
 
-        y0m = _mm512_srai_epi16::<A_E>(y0m);
-        y1m = _mm512_srai_epi16::<A_E>(y1m);
+        y0m = _mm512_srli_epi16::<A_E>(y0m);
+        y1m = _mm512_srli_epi16::<A_E>(y1m);
 
         let y_vl = avx512_pack_u16(y0m, y1m);
 
@@ -400,8 +400,8 @@ unsafe fn avx512_rgba_to_yuv_dot_rgba_impl_ubs<const ORIGIN_CHANNELS: u8, const
         y0m = _mm512_add_epi16(y0m, y_bias);
         y1m = _mm512_add_epi16(y1m, y_bias);
 
-        y0m = _mm512_srai_epi16::<A_E>(y0m);
-        y1m = _mm512_srai_epi16::<A_E>(y1m);
+        y0m = _mm512_srli_epi16::<A_E>(y0m);
+        y1m = _mm512_srli_epi16::<A_E>(y1m);
 
         let y_vl = avx512_pack_u16(y0m, y1m);
 
@@ -684,8 +684,8 @@ unsafe fn avx512_rgba_to_yuv_dot_rgba_impl_dot_impl<
         let mut y0m = _mm512_add_epi16(y0p, y1p);
         let mut y1m = _mm512_add_epi16(y2p, y3p);
 
-        y0m = _mm512_srai_epi16::<A_E>(y0m);
-        y1m = _mm512_srai_epi16::<A_E>(y1m);
+        y0m = _mm512_srli_epi16::<A_E>(y0m);
+        y1m = _mm512_srli_epi16::<A_E>(y1m);
 
         let y_vl = avx512_pack_u16(y0m, y1m);
 
@@ -826,8 +826,8 @@ unsafe fn avx512_rgba_to_yuv_dot_rgba_impl_dot_impl<
         let mut y0m = _mm512_add_epi16(y0p, y1p);
         let mut y1m = _mm512_add_epi16(y2p, y3p);
 
-        y0m = _mm512_srai_epi16::<A_E>(y0m);
-        y1m = _mm512_srai_epi16::<A_E>(y1m);
+        y0m = _mm512_srli_epi16::<A_E>(y0m);
+        y1m = _mm512_srli_epi16::<A_E>(y1m);
 
         let y_vl = avx512_pack_u16(y0m, y1m);
 
diff --git a/src/avx512bw/rgba_to_yuv_fast420.rs b/src/avx512bw/rgba_to_yuv_fast420.rs
index bdd2aef..7aa4ea5 100644
--- a/src/avx512bw/rgba_to_yuv_fast420.rs
+++ b/src/avx512bw/rgba_to_yuv_fast420.rs
@@ -275,10 +275,10 @@ unsafe fn avx512_rgba_to_yuv_dot_rgba_impl_ubs420_impl<const ORIGIN_CHANNELS: u8
         y2m = _mm512_add_epi16(y2m, y_bias);
         y3m = _mm512_add_epi16(y3m, y_bias);
 
-        y0m = _mm512_srai_epi16::<A_E>(y0m);
-        y1m = _mm512_srai_epi16::<A_E>(y1m);
-        y2m = _mm512_srai_epi16::<A_E>(y2m);
-        y3m = _mm512_srai_epi16::<A_E>(y3m);
+        y0m = _mm512_srli_epi16::<A_E>(y0m);
+        y1m = _mm512_srli_epi16::<A_E>(y1m);
+        y2m = _mm512_srli_epi16::<A_E>(y2m);
+        y3m = _mm512_srli_epi16::<A_E>(y3m);
 
         let y_vl0 = avx512_pack_u16(y0m, y1m);
         let y_vl1 = avx512_pack_u16(y2m, y3m);
@@ -426,10 +426,10 @@ unsafe fn avx512_rgba_to_yuv_dot_rgba_impl_ubs420_impl<const ORIGIN_CHANNELS: u8
         y2m = _mm512_add_epi16(y2m, y_bias);
         y3m = _mm512_add_epi16(y3m, y_bias);
 
-        y0m = _mm512_srai_epi16::<A_E>(y0m);
-        y1m = _mm512_srai_epi16::<A_E>(y1m);
-        y2m = _mm512_srai_epi16::<A_E>(y2m);
-        y3m = _mm512_srai_epi16::<A_E>(y3m);
+        y0m = _mm512_srli_epi16::<A_E>(y0m);
+        y1m = _mm512_srli_epi16::<A_E>(y1m);
+        y2m = _mm512_srli_epi16::<A_E>(y2m);
+        y3m = _mm512_srli_epi16::<A_E>(y3m);
 
         let y_vl0 = avx512_pack_u16(y0m, y1m);
         let y_vl1 = avx512_pack_u16(y2m, y3m);
@@ -672,10 +672,10 @@ unsafe fn avx512_rgba_to_yuv_dot_rgba_impl_dot420_impl<const ORIGIN_CHANNELS: u8
         let mut y2m = avx512_pack_u32(y4s, y5s);
         let mut y3m = avx512_pack_u32(y6s, y7s);
 
-        y0m = _mm512_srai_epi16::<A_E>(y0m);
-        y1m = _mm512_srai_epi16::<A_E>(y1m);
-        y2m = _mm512_srai_epi16::<A_E>(y2m);
-        y3m = _mm512_srai_epi16::<A_E>(y3m);
+        y0m = _mm512_srli_epi16::<A_E>(y0m);
+        y1m = _mm512_srli_epi16::<A_E>(y1m);
+        y2m = _mm512_srli_epi16::<A_E>(y2m);
+        y3m = _mm512_srli_epi16::<A_E>(y3m);
 
         let y_vl0 = avx512_pack_u16(y0m, y1m);
         let y_vl1 = avx512_pack_u16(y2m, y3m);
@@ -807,10 +807,10 @@ unsafe fn avx512_rgba_to_yuv_dot_rgba_impl_dot420_impl<const ORIGIN_CHANNELS: u8
         let mut y2m = avx512_pack_u32(y4s, y5s);
         let mut y3m = avx512_pack_u32(y6s, y7s);
 
-        y0m = _mm512_srai_epi16::<A_E>(y0m);
-        y1m = _mm512_srai_epi16::<A_E>(y1m);
-        y2m = _mm512_srai_epi16::<A_E>(y2m);
-        y3m = _mm512_srai_epi16::<A_E>(y3m);
+        y0m = _mm512_srli_epi16::<A_E>(y0m);
+        y1m = _mm512_srli_epi16::<A_E>(y1m);
+        y2m = _mm512_srli_epi16::<A_E>(y2m);
+        y3m = _mm512_srli_epi16::<A_E>(y3m);
 
         let y_vl0 = avx512_pack_u16(y0m, y1m);
         let y_vl1 = avx512_pack_u16(y2m, y3m);
diff --git a/src/rgba_to_nv.rs b/src/rgba_to_nv.rs
index 6fdf2c2..fa0878e 100644
--- a/src/rgba_to_nv.rs
+++ b/src/rgba_to_nv.rs
@@ -633,7 +633,7 @@ fn rgbx_to_nv_impl<
                 let b0 = rgba0[src_chans.get_b_channel_offset()] as i32;
                 let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst[0] = y_0 as u8;
+                y_dst[0] = y_0.min(255) as u8;
 
                 let rgba1 = &rgba[channels..channels * 2];
 
@@ -643,7 +643,7 @@ fn rgbx_to_nv_impl<
 
                 let y_1 = (r1 * transform.yr + g1 * transform.yg + b1 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst[1] = y_1 as u8;
+                y_dst[1] = y_1.min(255) as u8;
 
                 let r = (r0 + r1 + 1) >> 1;
                 let g = (g0 + g1 + 1) >> 1;
@@ -668,7 +668,7 @@ fn rgbx_to_nv_impl<
                 let b0 = rgba[src_chans.get_b_channel_offset()] as i32;
                 let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst[0] = y_0 as u8;
+                y_dst[0] = y_0.min(255) as u8;
 
                 let cb =
                     (r0 * transform.cb_r + g0 * transform.cb_g + b0 * transform.cb_b + bias_uv)
@@ -712,7 +712,7 @@ fn rgbx_to_nv_impl<
                 let b00 = rgba00[src_chans.get_b_channel_offset()] as i32;
                 let y_00 = (r00 * transform.yr + g00 * transform.yg + b00 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst0[0] = y_00 as u8;
+                y_dst0[0] = y_00.min(255) as u8;
 
                 let rgba01 = &rgba0[channels..channels * 2];
 
@@ -722,7 +722,7 @@ fn rgbx_to_nv_impl<
 
                 let y_1 = (r01 * transform.yr + g01 * transform.yg + b01 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst0[1] = y_1 as u8;
+                y_dst0[1] = y_1.min(255) as u8;
 
                 let rgba10 = &rgba1[0..channels];
                 let r10 = rgba10[src_chans.get_r_channel_offset()] as i32;
@@ -730,7 +730,7 @@ fn rgbx_to_nv_impl<
                 let b10 = rgba10[src_chans.get_b_channel_offset()] as i32;
                 let y_10 = (r10 * transform.yr + g10 * transform.yg + b10 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst1[0] = y_10 as u8;
+                y_dst1[0] = y_10.min(255) as u8;
 
                 let rgba11 = &rgba1[channels..channels * 2];
                 let r11 = rgba11[src_chans.get_r_channel_offset()] as i32;
@@ -738,7 +738,7 @@ fn rgbx_to_nv_impl<
                 let b11 = rgba11[src_chans.get_b_channel_offset()] as i32;
                 let y_11 = (r11 * transform.yr + g11 * transform.yg + b11 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst1[1] = y_11 as u8;
+                y_dst1[1] = y_11.min(255) as u8;
 
                 let r = (r00 + r01 + r10 + r11 + 2) >> 2;
                 let g = (g00 + g01 + g10 + g11 + 2) >> 2;
@@ -766,14 +766,14 @@ fn rgbx_to_nv_impl<
                 let b0 = rgba0[src_chans.get_b_channel_offset()] as i32;
                 let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst0[0] = y_0 as u8;
+                y_dst0[0] = y_0.min(255) as u8;
 
                 let r1 = rgba1[src_chans.get_r_channel_offset()] as i32;
                 let g1 = rgba1[src_chans.get_g_channel_offset()] as i32;
                 let b1 = rgba1[src_chans.get_b_channel_offset()] as i32;
                 let y_1 = (r1 * transform.yr + g1 * transform.yg + b1 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst1[0] = y_1 as u8;
+                y_dst1[0] = y_1.min(255) as u8;
 
                 let r = (r0 + r1 + 1) >> 1;
                 let g = (g0 + g1 + 1) >> 1;
@@ -833,7 +833,7 @@ fn rgbx_to_nv_impl<
                     let b0 = rgba[src_chans.get_b_channel_offset()] as i32;
                     let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
                         >> PRECISION;
-                    *y_dst = y_0 as u8;
+                    *y_dst = y_0.min(255) as u8;
                     let cb =
                         (r0 * transform.cb_r + g0 * transform.cb_g + b0 * transform.cb_b + bias_uv)
                             >> PRECISION;
diff --git a/src/rgba_to_yuv.rs b/src/rgba_to_yuv.rs
index 45649d4..e79231a 100644
--- a/src/rgba_to_yuv.rs
+++ b/src/rgba_to_yuv.rs
@@ -719,7 +719,7 @@ fn rgbx_to_yuv8_impl<const ORIGIN_CHANNELS: u8, const SAMPLING: u8, const PRECIS
                 let b0 = src0[src_chans.get_b_channel_offset()] as i32;
                 let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst[0] = y_0 as u8;
+                y_dst[0] = y_0.min(255) as u8;
 
                 let src1 = &rgba[channels..channels * 2];
 
@@ -728,7 +728,7 @@ fn rgbx_to_yuv8_impl<const ORIGIN_CHANNELS: u8, const SAMPLING: u8, const PRECIS
                 let b1 = src1[src_chans.get_b_channel_offset()] as i32;
                 let y_1 = (r1 * transform.yr + g1 * transform.yg + b1 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst[1] = y_1 as u8;
+                y_dst[1] = y_1.min(255) as u8;
 
                 let r = (r0 + r1 + 1) >> 1;
                 let g = (g0 + g1 + 1) >> 1;
@@ -754,7 +754,7 @@ fn rgbx_to_yuv8_impl<const ORIGIN_CHANNELS: u8, const SAMPLING: u8, const PRECIS
 
                 let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
                     >> PRECISION;
-                *y_last = y_0 as u8;
+                *y_last = y_0.min(255) as u8;
 
                 let cb =
                     (r0 * transform.cb_r + g0 * transform.cb_g + b0 * transform.cb_b + bias_uv)
@@ -804,7 +804,7 @@ fn rgbx_to_yuv8_impl<const ORIGIN_CHANNELS: u8, const SAMPLING: u8, const PRECIS
                 let b00 = src00[src_chans.get_b_channel_offset()] as i32;
                 let y_00 = (r00 * transform.yr + g00 * transform.yg + b00 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst0[0] = y_00 as u8;
+                y_dst0[0] = y_00.min(255) as u8;
 
                 let src1 = &rgba0[channels..channels * 2];
 
@@ -813,7 +813,7 @@ fn rgbx_to_yuv8_impl<const ORIGIN_CHANNELS: u8, const SAMPLING: u8, const PRECIS
                 let b01 = src1[src_chans.get_b_channel_offset()] as i32;
                 let y_01 = (r01 * transform.yr + g01 * transform.yg + b01 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst0[1] = y_01 as u8;
+                y_dst0[1] = y_01.min(255) as u8;
 
                 let src10 = &rgba1[0..channels];
 
@@ -822,7 +822,7 @@ fn rgbx_to_yuv8_impl<const ORIGIN_CHANNELS: u8, const SAMPLING: u8, const PRECIS
                 let b10 = src10[src_chans.get_b_channel_offset()] as i32;
                 let y_10 = (r10 * transform.yr + g10 * transform.yg + b10 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst1[0] = y_10 as u8;
+                y_dst1[0] = y_10.min(255) as u8;
 
                 let src11 = &rgba1[channels..channels * 2];
 
@@ -831,7 +831,7 @@ fn rgbx_to_yuv8_impl<const ORIGIN_CHANNELS: u8, const SAMPLING: u8, const PRECIS
                 let b11 = src11[src_chans.get_b_channel_offset()] as i32;
                 let y_11 = (r11 * transform.yr + g11 * transform.yg + b11 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst1[1] = y_11 as u8;
+                y_dst1[1] = y_11.min(255) as u8;
 
                 let ruv = (r00 + r01 + r10 + r11 + 2) >> 2;
                 let guv = (g00 + g01 + g10 + g11 + 2) >> 2;
@@ -865,11 +865,11 @@ fn rgbx_to_yuv8_impl<const ORIGIN_CHANNELS: u8, const SAMPLING: u8, const PRECIS
 
                 let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
                     >> PRECISION;
-                *y0_last = y_0 as u8;
+                *y0_last = y_0.min(255) as u8;
 
                 let y_1 = (r1 * transform.yr + g1 * transform.yg + b1 * transform.yb + bias_y)
                     >> PRECISION;
-                *y1_last = y_1 as u8;
+                *y1_last = y_1.min(255) as u8;
 
                 let r0 = (r0 + r1) >> 1;
                 let g0 = (g0 + g1) >> 1;
@@ -937,7 +937,7 @@ fn rgbx_to_yuv8_impl<const ORIGIN_CHANNELS: u8, const SAMPLING: u8, const PRECIS
                     let b0 = rgba[src_chans.get_b_channel_offset()] as i32;
                     let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
                         >> PRECISION;
-                    *y_dst = y_0 as u8;
+                    *y_dst = y_0.min(255) as u8;
 
                     let cb =
                         (r0 * transform.cb_r + g0 * transform.cb_g + b0 * transform.cb_b + bias_uv)
diff --git a/src/sse/rgba_to_nv_fast.rs b/src/sse/rgba_to_nv_fast.rs
index 27a01e5..8c477dd 100644
--- a/src/sse/rgba_to_nv_fast.rs
+++ b/src/sse/rgba_to_nv_fast.rs
@@ -204,8 +204,8 @@ unsafe fn sse41_rgba_to_nv_fast_rgba_impl_ubs<
         y0m = _mm_add_epi16(y0m, y_bias);
         y1m = _mm_add_epi16(y1m, y_bias);
 
-        y0m = _mm_srai_epi16::<A_E>(y0m);
-        y1m = _mm_srai_epi16::<A_E>(y1m);
+        y0m = _mm_srli_epi16::<A_E>(y0m);
+        y1m = _mm_srli_epi16::<A_E>(y1m);
 
         let y_vl = _mm_packus_epi16(y0m, y1m);
 
@@ -394,8 +394,8 @@ unsafe fn sse41_rgba_to_nv_fast_rgba_impl_ubs<
         y0m = _mm_add_epi16(y0m, y_bias);
         y1m = _mm_add_epi16(y1m, y_bias);
 
-        y0m = _mm_srai_epi16::<A_E>(y0m);
-        y1m = _mm_srai_epi16::<A_E>(y1m);
+        y0m = _mm_srli_epi16::<A_E>(y0m);
+        y1m = _mm_srli_epi16::<A_E>(y1m);
 
         let y_vl = _mm_packus_epi16(y0m, y1m);
 
diff --git a/src/sse/rgba_to_nv_fast420.rs b/src/sse/rgba_to_nv_fast420.rs
index 4979ea2..77c66b8 100644
--- a/src/sse/rgba_to_nv_fast420.rs
+++ b/src/sse/rgba_to_nv_fast420.rs
@@ -212,10 +212,10 @@ unsafe fn sse41_rgba_to_nv_fast_rgba_impl_ubs420<const ORIGIN_CHANNELS: u8, cons
         y2m = _mm_add_epi16(y2m, y_bias);
         y3m = _mm_add_epi16(y3m, y_bias);
 
-        y0m = _mm_srai_epi16::<A_E>(y0m);
-        y1m = _mm_srai_epi16::<A_E>(y1m);
-        y2m = _mm_srai_epi16::<A_E>(y2m);
-        y3m = _mm_srai_epi16::<A_E>(y3m);
+        y0m = _mm_srli_epi16::<A_E>(y0m);
+        y1m = _mm_srli_epi16::<A_E>(y1m);
+        y2m = _mm_srli_epi16::<A_E>(y2m);
+        y3m = _mm_srli_epi16::<A_E>(y3m);
 
         let y_vl0 = _mm_packus_epi16(y0m, y1m);
         let y_vl1 = _mm_packus_epi16(y2m, y3m);
@@ -387,10 +387,10 @@ unsafe fn sse41_rgba_to_nv_fast_rgba_impl_ubs420<const ORIGIN_CHANNELS: u8, cons
         y2m = _mm_add_epi16(y2m, y_bias);
         y3m = _mm_add_epi16(y3m, y_bias);
 
-        y0m = _mm_srai_epi16::<A_E>(y0m);
-        y1m = _mm_srai_epi16::<A_E>(y1m);
-        y2m = _mm_srai_epi16::<A_E>(y2m);
-        y3m = _mm_srai_epi16::<A_E>(y3m);
+        y0m = _mm_srli_epi16::<A_E>(y0m);
+        y1m = _mm_srli_epi16::<A_E>(y1m);
+        y2m = _mm_srli_epi16::<A_E>(y2m);
+        y3m = _mm_srli_epi16::<A_E>(y3m);
 
         let y_vl0 = _mm_packus_epi16(y0m, y1m);
         let y_vl1 = _mm_packus_epi16(y2m, y3m);
diff --git a/src/sse/rgba_to_yuv_fast.rs b/src/sse/rgba_to_yuv_fast.rs
index 15c6c82..7b0fde4 100644
--- a/src/sse/rgba_to_yuv_fast.rs
+++ b/src/sse/rgba_to_yuv_fast.rs
@@ -199,8 +199,8 @@ unsafe fn sse41_rgba_to_yuv_dot_rgba_impl_ubs<const ORIGIN_CHANNELS: u8, const S
         y0m = _mm_add_epi16(y0m, y_bias);
         y1m = _mm_add_epi16(y1m, y_bias);
 
-        y0m = _mm_srai_epi16::<A_E>(y0m);
-        y1m = _mm_srai_epi16::<A_E>(y1m);
+        y0m = _mm_srli_epi16::<A_E>(y0m);
+        y1m = _mm_srli_epi16::<A_E>(y1m);
 
         let y_vl = _mm_packus_epi16(y0m, y1m);
 
@@ -369,8 +369,8 @@ unsafe fn sse41_rgba_to_yuv_dot_rgba_impl_ubs<const ORIGIN_CHANNELS: u8, const S
         y0m = _mm_add_epi16(y0m, y_bias);
         y1m = _mm_add_epi16(y1m, y_bias);
 
-        y0m = _mm_srai_epi16::<A_E>(y0m);
-        y1m = _mm_srai_epi16::<A_E>(y1m);
+        y0m = _mm_srli_epi16::<A_E>(y0m);
+        y1m = _mm_srli_epi16::<A_E>(y1m);
 
         let y_vl = _mm_packus_epi16(y0m, y1m);
 
diff --git a/src/sse/rgba_to_yuv_fast420.rs b/src/sse/rgba_to_yuv_fast420.rs
index a1268cb..3ae4e2e 100644
--- a/src/sse/rgba_to_yuv_fast420.rs
+++ b/src/sse/rgba_to_yuv_fast420.rs
@@ -217,10 +217,10 @@ unsafe fn sse41_rgba_to_yuv_dot_rgba_impl_ubs420<const ORIGIN_CHANNELS: u8>(
         y2m = _mm_add_epi16(y2m, y_bias);
         y3m = _mm_add_epi16(y3m, y_bias);
 
-        y0m = _mm_srai_epi16::<A_E>(y0m);
-        y1m = _mm_srai_epi16::<A_E>(y1m);
-        y2m = _mm_srai_epi16::<A_E>(y2m);
-        y3m = _mm_srai_epi16::<A_E>(y3m);
+        y0m = _mm_srli_epi16::<A_E>(y0m);
+        y1m = _mm_srli_epi16::<A_E>(y1m);
+        y2m = _mm_srli_epi16::<A_E>(y2m);
+        y3m = _mm_srli_epi16::<A_E>(y3m);
 
         let y_vl0 = _mm_packus_epi16(y0m, y1m);
         let y_vl1 = _mm_packus_epi16(y2m, y3m);
@@ -386,10 +386,10 @@ unsafe fn sse41_rgba_to_yuv_dot_rgba_impl_ubs420<const ORIGIN_CHANNELS: u8>(
         y2m = _mm_add_epi16(y2m, y_bias);
         y3m = _mm_add_epi16(y3m, y_bias);
 
-        y0m = _mm_srai_epi16::<A_E>(y0m);
-        y1m = _mm_srai_epi16::<A_E>(y1m);
-        y2m = _mm_srai_epi16::<A_E>(y2m);
-        y3m = _mm_srai_epi16::<A_E>(y3m);
+        y0m = _mm_srli_epi16::<A_E>(y0m);
+        y1m = _mm_srli_epi16::<A_E>(y1m);
+        y2m = _mm_srli_epi16::<A_E>(y2m);
+        y3m = _mm_srli_epi16::<A_E>(y3m);
 
         let y_vl0 = _mm_packus_epi16(y0m, y1m);
         let y_vl1 = _mm_packus_epi16(y2m, y3m);
-- 
2.43.0


From 633cfff6a0ee263a60c6f6152c0630468b89d9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 09/45] fix: clamp RGB before the premultiply in the SIMD
 YUV+alpha decoders

---
 src/avx2/avx2_utils.rs            |  6 ++++++
 src/avx2/yuv_to_rgba_alpha.rs     | 12 ++++++------
 src/avx512bw/avx512_utils.rs      |  6 ++++++
 src/avx512bw/yuv_to_rgba_alpha.rs | 12 ++++++------
 src/sse/utils.rs                  |  6 ++++++
 src/sse/yuv_to_rgba_alpha.rs      | 14 +++++++-------
 6 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/src/avx2/avx2_utils.rs b/src/avx2/avx2_utils.rs
index 6f04025..d76547e 100644
--- a/src/avx2/avx2_utils.rs
+++ b/src/avx2/avx2_utils.rs
@@ -356,6 +356,12 @@ pub(crate) unsafe fn avx_pairwise_avg_epi16_epi8_j(a: __m256i, f: i8) -> __m256i
 //     ))
 // }
 
+/// Clamps signed 16-bit lanes to the 8-bit range
+#[inline(always)]
+pub(crate) unsafe fn avx2_clamp_u8_epi16(v: __m256i) -> __m256i {
+    _mm256_min_epi16(_mm256_max_epi16(v, _mm256_setzero_si256()), _mm256_set1_epi16(255))
+}
+
 #[inline(always)]
 pub(crate) unsafe fn avx2_div_by255_x2(l: __m256i, v: __m256i) -> (__m256i, __m256i) {
     let addition = _mm256_set1_epi16(127);
diff --git a/src/avx2/yuv_to_rgba_alpha.rs b/src/avx2/yuv_to_rgba_alpha.rs
index f05995f..b242c14 100644
--- a/src/avx2/yuv_to_rgba_alpha.rs
+++ b/src/avx2/yuv_to_rgba_alpha.rs
@@ -336,13 +336,13 @@ unsafe fn avx2_yuv_to_rgba_alpha_impl<const DESTINATION_CHANNELS: u8, const SAMP
         let (r_values, g_values, b_values);
 
         if use_premultiply {
-            r_high = _mm256_max_epi16(r_high, _mm256_setzero_si256());
-            b_high = _mm256_max_epi16(b_high, _mm256_setzero_si256());
-            g_high = _mm256_max_epi16(g_high, _mm256_setzero_si256());
+            r_high = avx2_clamp_u8_epi16(r_high);
+            b_high = avx2_clamp_u8_epi16(b_high);
+            g_high = avx2_clamp_u8_epi16(g_high);
 
-            r_low = _mm256_max_epi16(r_low, _mm256_setzero_si256());
-            b_low = _mm256_max_epi16(b_low, _mm256_setzero_si256());
-            g_low = _mm256_max_epi16(g_low, _mm256_setzero_si256());
+            r_low = avx2_clamp_u8_epi16(r_low);
+            b_low = avx2_clamp_u8_epi16(b_low);
+            g_low = avx2_clamp_u8_epi16(g_low);
 
             let a_high = _mm256_unpackhi_epi8(a_values, _mm256_setzero_si256());
             let a_low = _mm256_unpacklo_epi8(a_values, _mm256_setzero_si256());
diff --git a/src/avx512bw/avx512_utils.rs b/src/avx512bw/avx512_utils.rs
index 0596e98..7f5fa7c 100644
--- a/src/avx512bw/avx512_utils.rs
+++ b/src/avx512bw/avx512_utils.rs
@@ -299,6 +299,12 @@ pub(crate) unsafe fn avx512_put_rgba16(
     _mm512_storeu_si512(dst.add(96) as *mut _, rgb3);
 }
 
+/// Clamps signed 16-bit lanes to the 8-bit range
+#[inline(always)]
+pub(crate) unsafe fn avx512_clamp_u8_epi16(v: __m512i) -> __m512i {
+    _mm512_min_epi16(_mm512_max_epi16(v, _mm512_setzero_si512()), _mm512_set1_epi16(255))
+}
+
 #[inline(always)]
 pub(crate) unsafe fn avx512_div_by255(v: __m512i) -> __m512i {
     let addition = _mm512_set1_epi16(127);
diff --git a/src/avx512bw/yuv_to_rgba_alpha.rs b/src/avx512bw/yuv_to_rgba_alpha.rs
index 9930b1c..d4ad69e 100644
--- a/src/avx512bw/yuv_to_rgba_alpha.rs
+++ b/src/avx512bw/yuv_to_rgba_alpha.rs
@@ -255,12 +255,12 @@ unsafe fn avx512_yuv_to_rgba_alpha_impl<
             let a_high = _mm512_cvtepu8_epi16(_mm512_extracti64x4_epi64::<1>(a_values));
             let a_low = _mm512_cvtepu8_epi16(_mm512_castsi512_si256(a_values));
 
-            let r_l = avx512_div_by255(_mm512_mullo_epi16(r_low, a_low));
-            let r_h = avx512_div_by255(_mm512_mullo_epi16(r_high, a_high));
-            let g_l = avx512_div_by255(_mm512_mullo_epi16(g_low, a_low));
-            let g_h = avx512_div_by255(_mm512_mullo_epi16(g_high, a_high));
-            let b_l = avx512_div_by255(_mm512_mullo_epi16(b_low, a_low));
-            let b_h = avx512_div_by255(_mm512_mullo_epi16(b_high, a_high));
+            let r_l = avx512_div_by255(_mm512_mullo_epi16(avx512_clamp_u8_epi16(r_low), a_low));
+            let r_h = avx512_div_by255(_mm512_mullo_epi16(avx512_clamp_u8_epi16(r_high), a_high));
+            let g_l = avx512_div_by255(_mm512_mullo_epi16(avx512_clamp_u8_epi16(g_low), a_low));
+            let g_h = avx512_div_by255(_mm512_mullo_epi16(avx512_clamp_u8_epi16(g_high), a_high));
+            let b_l = avx512_div_by255(_mm512_mullo_epi16(avx512_clamp_u8_epi16(b_low), a_low));
+            let b_h = avx512_div_by255(_mm512_mullo_epi16(avx512_clamp_u8_epi16(b_high), a_high));
 
             r_values = avx512_pack_u16(r_l, r_h);
             g_values = avx512_pack_u16(g_l, g_h);
diff --git a/src/sse/utils.rs b/src/sse/utils.rs
index aa8414e..a4cd0b1 100644
--- a/src/sse/utils.rs
+++ b/src/sse/utils.rs
@@ -214,6 +214,12 @@ pub(crate) unsafe fn _mm_havg_epu8(a: __m128i, b: __m128i) -> __m128i {
     _mm_packus_epi16(lo, hi)
 }
 
+/// Clamps signed 16-bit lanes to the 8-bit range
+#[inline(always)]
+pub(crate) unsafe fn sse_clamp_u8_epi16(v: __m128i) -> __m128i {
+    _mm_min_epi16(_mm_max_epi16(v, _mm_setzero_si128()), _mm_set1_epi16(255))
+}
+
 #[inline(always)]
 pub(crate) unsafe fn sse_div_by255(v: __m128i) -> __m128i {
     let addition = _mm_set1_epi16(127);
diff --git a/src/sse/yuv_to_rgba_alpha.rs b/src/sse/yuv_to_rgba_alpha.rs
index 05f8158..06e7364 100644
--- a/src/sse/yuv_to_rgba_alpha.rs
+++ b/src/sse/yuv_to_rgba_alpha.rs
@@ -28,7 +28,7 @@
  */
 
 use crate::internals::ProcessedOffset;
-use crate::sse::utils::sse_div_by255;
+use crate::sse::utils::{sse_clamp_u8_epi16, sse_div_by255};
 use crate::sse::{
     _mm_expand8_hi_to_10, _mm_expand8_lo_to_10, _mm_store_interleave_rgb_for_yuv, _xx_load_si64,
 };
@@ -167,12 +167,12 @@ unsafe fn sse_yuv_to_rgba_alpha_row_impl<const DESTINATION_CHANNELS: u8, const S
         if use_premultiply {
             let a_h = _mm_unpackhi_epi8(a_values, _mm_setzero_si128());
             let a_l = _mm_unpacklo_epi8(a_values, _mm_setzero_si128());
-            let r_h_16 = sse_div_by255(_mm_mullo_epi16(r_high, a_h));
-            let r_l_16 = sse_div_by255(_mm_mullo_epi16(r_low, a_l));
-            let g_h_16 = sse_div_by255(_mm_mullo_epi16(g_high, a_h));
-            let g_l_16 = sse_div_by255(_mm_mullo_epi16(g_low, a_l));
-            let b_h_16 = sse_div_by255(_mm_mullo_epi16(b_high, a_h));
-            let b_l_16 = sse_div_by255(_mm_mullo_epi16(b_low, a_l));
+            let r_h_16 = sse_div_by255(_mm_mullo_epi16(sse_clamp_u8_epi16(r_high), a_h));
+            let r_l_16 = sse_div_by255(_mm_mullo_epi16(sse_clamp_u8_epi16(r_low), a_l));
+            let g_h_16 = sse_div_by255(_mm_mullo_epi16(sse_clamp_u8_epi16(g_high), a_h));
+            let g_l_16 = sse_div_by255(_mm_mullo_epi16(sse_clamp_u8_epi16(g_low), a_l));
+            let b_h_16 = sse_div_by255(_mm_mullo_epi16(sse_clamp_u8_epi16(b_high), a_h));
+            let b_l_16 = sse_div_by255(_mm_mullo_epi16(sse_clamp_u8_epi16(b_low), a_l));
 
             r_values = _mm_packus_epi16(r_l_16, r_h_16);
             g_values = _mm_packus_epi16(g_l_16, g_h_16);
-- 
2.43.0


From 1b5f6a0a6cb7df83dc8baa5cd0f1f75d3d084168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 10/45] fix: clamp RGB before the premultiply in the AVX2 AYUV
 tail

---
 src/avx2/ayuv_to_rgba.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/avx2/ayuv_to_rgba.rs b/src/avx2/ayuv_to_rgba.rs
index 733eeb3..07237a1 100644
--- a/src/avx2/ayuv_to_rgba.rs
+++ b/src/avx2/ayuv_to_rgba.rs
@@ -240,16 +240,16 @@ unsafe fn avx2_ayuv_to_rgba_impl<const DESTINATION_CHANNELS: u8, const PACKED: u
             let a_low = _mm256_unpacklo_epi8(a, _mm256_setzero_si256());
 
             let (r_l, r_h) = avx2_div_by255_x2(
-                _mm256_mullo_epi16(r_low, a_low),
-                _mm256_mullo_epi16(r_high, a_high),
+                _mm256_mullo_epi16(avx2_clamp_u8_epi16(r_low), a_low),
+                _mm256_mullo_epi16(avx2_clamp_u8_epi16(r_high), a_high),
             );
             let (g_l, g_h) = avx2_div_by255_x2(
-                _mm256_mullo_epi16(g_low, a_low),
-                _mm256_mullo_epi16(g_high, a_high),
+                _mm256_mullo_epi16(avx2_clamp_u8_epi16(g_low), a_low),
+                _mm256_mullo_epi16(avx2_clamp_u8_epi16(g_high), a_high),
             );
             let (b_l, b_h) = avx2_div_by255_x2(
-                _mm256_mullo_epi16(b_low, a_low),
-                _mm256_mullo_epi16(b_high, a_high),
+                _mm256_mullo_epi16(avx2_clamp_u8_epi16(b_low), a_low),
+                _mm256_mullo_epi16(avx2_clamp_u8_epi16(b_high), a_high),
             );
 
             r_values = _mm256_packus_epi16(r_l, r_h);
-- 
2.43.0


From 01510c62d8793d60b40d5343c310e32330f78302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 11/45] fix: clamp high bit-depth YUV -> 8-bit RGB to 255, not
 to the source maximum

---
 src/yuv_p10_rgba.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yuv_p10_rgba.rs b/src/yuv_p10_rgba.rs
index ce4bed4..4f34053 100644
--- a/src/yuv_p10_rgba.rs
+++ b/src/yuv_p10_rgba.rs
@@ -147,7 +147,7 @@ fn yuv_p16_to_image_ant<
     fn qrshr<const BIT_DEPTH: usize>(val: i32) -> i32 {
         let total_shift = PRECISION + (BIT_DEPTH as i32 - 8);
         let rounding: i32 = 1 << (total_shift - 1);
-        let max_value: i32 = (1 << BIT_DEPTH) - 1;
+        let max_value: i32 = 255;
         ((val + rounding) >> total_shift).min(max_value).max(0)
     }
 
-- 
2.43.0


From 32604ca7bbbdeef291b120b6ce963263dafdf9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 12/45] fix: clamp high bit-depth YUVA -> 8-bit RGBA to 255,
 not to the source maximum

---
 src/yuv_p16_rgba_alpha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yuv_p16_rgba_alpha.rs b/src/yuv_p16_rgba_alpha.rs
index 52178d2..dc8ac61 100644
--- a/src/yuv_p16_rgba_alpha.rs
+++ b/src/yuv_p16_rgba_alpha.rs
@@ -105,7 +105,7 @@ fn yuv_p16_to_image_alpha_ant<
     fn qrshr<const BIT_DEPTH: usize>(val: i32) -> i32 {
         let total_shift = PRECISION + (BIT_DEPTH as i32 - 8);
         let rounding: i32 = 1 << (total_shift - 1);
-        let max_value: i32 = (1 << BIT_DEPTH) - 1;
+        let max_value: i32 = 255;
         ((val + rounding) >> total_shift).min(max_value).max(0)
     }
 
-- 
2.43.0


From 813262ab679dfaf82152be10f07943af9a9a9b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 13/45] fix: out-of-bounds 16-pixel store in the 8-pixel SSE
 YUVA p16 -> RGBA8 row

---
 src/sse/yuv_p16_to_rgb8_alpha.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/yuv_p16_to_rgb8_alpha.rs b/src/sse/yuv_p16_to_rgb8_alpha.rs
index 8dec168..e7455e1 100644
--- a/src/sse/yuv_p16_to_rgb8_alpha.rs
+++ b/src/sse/yuv_p16_to_rgb8_alpha.rs
@@ -33,7 +33,7 @@ use std::arch::x86::*;
 use std::arch::x86_64::*;
 
 use crate::internals::ProcessedOffset;
-use crate::sse::{_mm_from_msb_epi16, _mm_store_interleave_rgb_for_yuv, _mm_store_shr_epi16_epi8};
+use crate::sse::{_mm_from_msb_epi16, _mm_store_interleave_half_rgb_for_yuv, _mm_store_shr_epi16_epi8};
 use crate::yuv_support::{
     CbCrInverseTransform, YuvBytesPacking, YuvChromaRange, YuvChromaSubsampling, YuvEndianness,
     YuvSourceChannels,
@@ -217,7 +217,7 @@ unsafe fn sse_yuv_p16_to_rgba8_alpha_row_impl<
             _mm_setzero_si128(),
         );
 
-        _mm_store_interleave_rgb_for_yuv::<DESTINATION_CHANNELS>(
+        _mm_store_interleave_half_rgb_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
             r_values,
             g_values,
-- 
2.43.0


From 6b4396e74187ac46a9381739a59e491f52af05fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:02 +0000
Subject: [PATCH 14/45] fix: AVX2 YUVA p16 rows read the alpha of pixels 16..32
 from the first 16

---
 src/avx2/yuv_p16_to_rgb16_alpha.rs | 2 +-
 src/avx2/yuv_p16_to_rgb8_alpha.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb16_alpha.rs b/src/avx2/yuv_p16_to_rgb16_alpha.rs
index 4b25b4b..03e0a31 100644
--- a/src/avx2/yuv_p16_to_rgb16_alpha.rs
+++ b/src/avx2/yuv_p16_to_rgb16_alpha.rs
@@ -270,7 +270,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_alpha_impl<
         let b_values1 = _mm256_min_epu16(zb1, v_max_colors);
 
         let a_values0 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
-        let a_values1 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let a_values1 = _mm256_loadu_si256(a_plane.get_unchecked((cx + 16)..).as_ptr() as *const __m256i);
 
         _mm256_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/avx2/yuv_p16_to_rgb8_alpha.rs b/src/avx2/yuv_p16_to_rgb8_alpha.rs
index 6bdbc80..6dc8084 100644
--- a/src/avx2/yuv_p16_to_rgb8_alpha.rs
+++ b/src/avx2/yuv_p16_to_rgb8_alpha.rs
@@ -258,7 +258,7 @@ unsafe fn avx_yuv_p16_to_rgba8_row_alpha_impl<
                 a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
             )),
             _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
+                a_plane.get_unchecked((cx + 16)..).as_ptr() as *const __m256i,
             )),
         );
 
-- 
2.43.0


From 87f1143472774541f731c99d3faa6d7ff825eb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:02 +0000
Subject: [PATCH 15/45] fix: opaque alpha of high bit-depth YUV -> RGBA8 in
 SSE/AVX2 rows

---
 src/avx2/yuv_p16_to_rgb8.rs | 2 +-
 src/sse/yuv_p16_to_rgb8.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb8.rs b/src/avx2/yuv_p16_to_rgb8.rs
index b372277..d9771ec 100644
--- a/src/avx2/yuv_p16_to_rgb8.rs
+++ b/src/avx2/yuv_p16_to_rgb8.rs
@@ -109,7 +109,7 @@ unsafe fn avx_yuv_p16_to_rgba_row8_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm256_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_max_colors = _mm256_set1_epi8(255u8 as i8);
 
     let y_corr = _mm256_set1_epi16(bias_y as i16);
     let uv_corr = _mm256_set1_epi16(bias_uv as i16);
diff --git a/src/sse/yuv_p16_to_rgb8.rs b/src/sse/yuv_p16_to_rgb8.rs
index da80224..97469b6 100644
--- a/src/sse/yuv_p16_to_rgb8.rs
+++ b/src/sse/yuv_p16_to_rgb8.rs
@@ -108,7 +108,7 @@ unsafe fn sse_yuv_p16_to_rgba8_row_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_max_colors = _mm_set1_epi8(255u8 as i8);
 
     let y_corr = _mm_set1_epi16(bias_y as i16);
     let uv_corr = _mm_set1_epi16(bias_uv as i16);
-- 
2.43.0


From 851a24a6ddf3961ca5425f18b1a69f9451a5dcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 16/45] fix: high bit-depth YUV -> RGB8 with non-tabulated
 matrices used the bit depth as the maximum value

---
 src/yuv_p10_rgba.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/yuv_p10_rgba.rs b/src/yuv_p10_rgba.rs
index 4f34053..60bcfcd 100644
--- a/src/yuv_p10_rgba.rs
+++ b/src/yuv_p10_rgba.rs
@@ -31,7 +31,6 @@
     feature = "nightly_avx512"
 ))]
 use crate::avx512bw::avx512_yuv_p16_to_rgba8_row;
-use crate::built_coefficients::get_built_inverse_transform;
 #[allow(dead_code, unused_imports)]
 use crate::internals::ProcessedOffset;
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
@@ -39,7 +38,7 @@ use crate::neon::neon_yuv_p16_to_rgba_row;
 use crate::numerics::to_ne;
 use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::{
-    get_inverse_transform, get_yuv_range, YuvBytesPacking, YuvChromaSubsampling, YuvEndianness,
+    get_yuv_range, search_inverse_transform, YuvBytesPacking, YuvChromaSubsampling, YuvEndianness,
     YuvRange, YuvSourceChannels, YuvStandardMatrix,
 };
 use crate::{YuvError, YuvPlanarImage};
@@ -77,20 +76,14 @@ fn yuv_p16_to_image_ant<
     let chroma_range = get_yuv_range(BIT_DEPTH as u32, range);
     let kr_kb = matrix.get_kr_kb();
     const PRECISION: i32 = 13;
-    let i_transform = if let Some(stored) =
-        get_built_inverse_transform(PRECISION as u32, BIT_DEPTH as u32, range, matrix)
-    {
-        stored
-    } else {
-        let transform = get_inverse_transform(
-            BIT_DEPTH as u32,
-            chroma_range.range_y,
-            chroma_range.range_uv,
-            kr_kb.kr,
-            kr_kb.kb,
-        );
-        transform.to_integers(PRECISION as u32)
-    };
+    let i_transform = search_inverse_transform(
+        PRECISION,
+        BIT_DEPTH as u32,
+        range,
+        matrix,
+        chroma_range,
+        kr_kb,
+    );
     let cr_coef = i_transform.cr_coef;
     let cb_coef = i_transform.cb_coef;
     let y_coef = i_transform.y_coef;
-- 
2.43.0


From 6f0dee19af837af63c295122d13fdae5ec1f4d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 17/45] fix: big-endian 10/12-bit YUV -> BGRA wrote RGBA

---
 src/yuv_p10_rgba.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yuv_p10_rgba.rs b/src/yuv_p10_rgba.rs
index 60bcfcd..8d2acdf 100644
--- a/src/yuv_p10_rgba.rs
+++ b/src/yuv_p10_rgba.rs
@@ -535,7 +535,7 @@ build_cnv!(
 build_cnv!(
     i010_be_to_bgra,
     YuvChromaSubsampling::Yuv420,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     10,
     "YUV 420 10-bit",
     "BGRA",
@@ -623,7 +623,7 @@ build_cnv!(
 build_cnv!(
     i210_be_to_bgra,
     YuvChromaSubsampling::Yuv422,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     10,
     "YUV 420 10-bit",
     "BGRA",
@@ -711,7 +711,7 @@ build_cnv!(
 build_cnv!(
     i012_be_to_bgra,
     YuvChromaSubsampling::Yuv420,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     12,
     "YUV 420 12-bit",
     "BGRA",
@@ -799,7 +799,7 @@ build_cnv!(
 build_cnv!(
     i212_be_to_bgra,
     YuvChromaSubsampling::Yuv422,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     12,
     "YUV 420 12-bit",
     "BGRA",
-- 
2.43.0


From 24f32d001c7cacdf00c4c3384ec03e2e711a0309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 18/45] fix: opaque alpha of the AVX-512 high bit-depth YUV ->
 RGBA8 row

---
 src/avx512bw/yuv_p16_to_rgb8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx512bw/yuv_p16_to_rgb8.rs b/src/avx512bw/yuv_p16_to_rgb8.rs
index b1d4f44..c596bfe 100644
--- a/src/avx512bw/yuv_p16_to_rgb8.rs
+++ b/src/avx512bw/yuv_p16_to_rgb8.rs
@@ -189,7 +189,7 @@ unsafe fn avx_yuv_p16_to_rgba_row8_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm512_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_max_colors = _mm512_set1_epi8(-1);
 
     let y_corr = _mm512_set1_epi16(bias_y as i16);
     let uv_corr = _mm512_set1_epi16(bias_uv as i16);
-- 
2.43.0


From b12fe68e98b3cbd1604e4b89d2b04d4bf0183bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 19/45] fix: AVX2 8-bit -> f16 rounded to whole numbers and
 mis-widened its tail

---
 src/avx2/f16_converter.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/avx2/f16_converter.rs b/src/avx2/f16_converter.rs
index 85b867f..b24270f 100644
--- a/src/avx2/f16_converter.rs
+++ b/src/avx2/f16_converter.rs
@@ -130,11 +130,8 @@ impl SurfaceU8ToFloat16Avx2 {
             let lc_ps = _mm256_cvtepi32_ps(l_e32);
             let hc_ps = _mm256_cvtepi32_ps(h_e32);
 
-            let mut ls_ps = _mm256_mul_ps(lc_ps, v_scale_h);
-            let mut hs_ps = _mm256_mul_ps(hc_ps, v_scale_h);
-
-            ls_ps = _mm256_round_ps::<0x0>(ls_ps);
-            hs_ps = _mm256_round_ps::<0x0>(hs_ps);
+            let ls_ps = _mm256_mul_ps(lc_ps, v_scale_h);
+            let hs_ps = _mm256_mul_ps(hc_ps, v_scale_h);
 
             let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(ls_ps);
             let hi = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(hs_ps);
@@ -153,8 +150,9 @@ impl SurfaceU8ToFloat16Avx2 {
                 _mm_setzero_si128(),
             );
 
-            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_round_ps::<0x0>(
-                _mm256_mul_ps(_mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)), v_scale_h),
+            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
+                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                v_scale_h,
             ));
 
             _mm_storeu_si128(dst.as_mut_ptr() as *mut _, lo);
@@ -171,13 +169,14 @@ impl SurfaceU8ToFloat16Avx2 {
 
             std::ptr::copy_nonoverlapping(src_rem.as_ptr(), src_buffer.as_mut_ptr(), src_rem.len());
 
-            let items = _mm_unpacklo_epi16(
+            let items = _mm_unpacklo_epi8(
                 _mm_loadu_si64(src_buffer.as_ptr() as *const _),
                 _mm_setzero_si128(),
             );
 
-            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_round_ps::<0x0>(
-                _mm256_mul_ps(_mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)), v_scale_h),
+            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
+                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                v_scale_h,
             ));
 
             _mm_storeu_si128(dst_buffer.as_mut_ptr() as *mut _, lo);
-- 
2.43.0


From ac3186e809ca5fa442f9ab16f891e84c023d7d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 20/45] fix: opaque alpha of the AVX2 YUV -> RGBA f16 row is
 1.0

---
 src/avx2/yuv_p16_to_rgb_f16.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb_f16.rs b/src/avx2/yuv_p16_to_rgb_f16.rs
index 42f3cdc..b34b500 100644
--- a/src/avx2/yuv_p16_to_rgb_f16.rs
+++ b/src/avx2/yuv_p16_to_rgb_f16.rs
@@ -106,6 +106,8 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
     const D: bool = false;
 
     let v_max_colors = _mm256_set1_epi16(((1i32 << BIT_DEPTH as i32) - 1i32) as i16);
+    // 1.0 in binary16
+    let v_opaque_alpha = _mm256_set1_epi16(0x3C00);
     let v_luma_coeff = if BIT_DEPTH == 16 {
         _mm256_set1_epi32(transform.y_coef)
     } else {
@@ -279,7 +281,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
             _mm256_setr_m128i(r_lo, r_hi),
             _mm256_setr_m128i(g_lo, g_hi),
             _mm256_setr_m128i(b_lo, b_hi),
-            v_max_colors,
+            v_opaque_alpha,
         );
 
         cx += 16;
@@ -466,7 +468,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
             _mm256_setr_m128i(r_lo, r_hi),
             _mm256_setr_m128i(g_lo, g_hi),
             _mm256_setr_m128i(b_lo, b_hi),
-            v_max_colors,
+            v_opaque_alpha,
         );
 
         std::ptr::copy_nonoverlapping(buffer.as_ptr(), dst_ptr.as_mut_ptr(), diff * channels);
-- 
2.43.0


From fe77bfd94b4a53a1f3147033c570cd2b0d9e2abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 21/45] fix: scalar 4:2:0 high bit-depth RGB -> YUV reused a
 top-row pixel for the bottom-right luma

---
 src/rgb16_to_yuv_p16.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index ccd974d..c9a618e 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -642,7 +642,7 @@ fn rgbx_to_yuv_ant<
             let r11 = rgba11[src_chans.get_r_channel_offset()] as i32;
             let g11 = rgba11[src_chans.get_g_channel_offset()] as i32;
             let b11 = rgba11[src_chans.get_b_channel_offset()] as i32;
-            let y_11 = (r01 * transform.yr + g01 * transform.yg + b01 * transform.yb + bias_y)
+            let y_11 = (r11 * transform.yr + g11 * transform.yg + b11 * transform.yb + bias_y)
                 >> PRECISION;
             y_dst1[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_11);
 
-- 
2.43.0


From d69262c940445c1bff86ef8991a4b4c7b918ae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 22/45] fix: last luma of the second row of an odd-width RGB ->
 NV p16 4:2:0 image was written to its first pixel

---
 src/rgb_to_nv_p16.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rgb_to_nv_p16.rs b/src/rgb_to_nv_p16.rs
index dfb28b7..c91c9c2 100644
--- a/src/rgb_to_nv_p16.rs
+++ b/src/rgb_to_nv_p16.rs
@@ -189,6 +189,7 @@ where
             let rgba1 = &rgba1[0..channels];
             let uv_dst = uv_dst.chunks_exact_mut(2).last().unwrap();
             let y_dst0 = y_dst0.chunks_exact_mut(2).into_remainder();
+            let y_dst1 = y_dst1.chunks_exact_mut(2).into_remainder();
 
             let r0 = rgba0[src_chans.get_r_channel_offset()] as i32;
             let g0 = rgba0[src_chans.get_g_channel_offset()] as i32;
-- 
2.43.0


From fd6dc509825c6dc9ab49ebf3b11a615c73993c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 23/45] fix: 16-bit full-range RGB -> YUV overflowed its i32
 accumulator near white

---
 src/avx2/rgb_to_yuv_p16_420_d16.rs |  24 +--
 src/avx2/rgb_to_yuv_p16_d16.rs     |  32 ++--
 src/rgb16_to_yuv_p16.rs            | 270 ++++++++++++++++++-----------
 src/rgb_to_nv_p16.rs               | 258 ++++++++++++++++-----------
 4 files changed, 357 insertions(+), 227 deletions(-)

diff --git a/src/avx2/rgb_to_yuv_p16_420_d16.rs b/src/avx2/rgb_to_yuv_p16_420_d16.rs
index cb4a3e9..48899c3 100644
--- a/src/avx2/rgb_to_yuv_p16_420_d16.rs
+++ b/src/avx2/rgb_to_yuv_p16_420_d16.rs
@@ -252,10 +252,10 @@ unsafe fn avx_rgba_to_yuv_impl_d16<
         y1_vl0 = _mm256_add_epi32(y1_vl0, y1_vl0_2);
         y1_vl1 = _mm256_add_epi32(y1_vl1, y1_vl1_2);
 
-        y0_vl0 = _mm256_srai_epi32::<PRECISION>(y0_vl0);
-        y0_vl1 = _mm256_srai_epi32::<PRECISION>(y0_vl1);
-        y1_vl0 = _mm256_srai_epi32::<PRECISION>(y1_vl0);
-        y1_vl1 = _mm256_srai_epi32::<PRECISION>(y1_vl1);
+        y0_vl0 = _mm256_srli_epi32::<PRECISION>(y0_vl0);
+        y0_vl1 = _mm256_srli_epi32::<PRECISION>(y0_vl1);
+        y1_vl0 = _mm256_srli_epi32::<PRECISION>(y1_vl0);
+        y1_vl1 = _mm256_srli_epi32::<PRECISION>(y1_vl1);
 
         let mut y0_vl = _mm256_packus_epi32(y0_vl0, y0_vl1);
         let mut y1_vl = _mm256_packus_epi32(y1_vl0, y1_vl1);
@@ -316,8 +316,8 @@ unsafe fn avx_rgba_to_yuv_impl_d16<
         cb_0 = _mm256_add_epi32(cb_0, cb_2);
         cr_0 = _mm256_add_epi32(cr_0, cr_2);
 
-        cb_0 = _mm256_srai_epi32::<PRECISION>(cb_0);
-        cr_0 = _mm256_srai_epi32::<PRECISION>(cr_0);
+        cb_0 = _mm256_srli_epi32::<PRECISION>(cb_0);
+        cr_0 = _mm256_srli_epi32::<PRECISION>(cr_0);
 
         let mut cb_s = avx2_pack_u32(cb_0, cb_0);
         let mut cr_s = avx2_pack_u32(cr_0, cr_0);
@@ -446,10 +446,10 @@ unsafe fn avx_rgba_to_yuv_impl_d16<
         y1_vl0 = _mm256_add_epi32(y1_vl0, y_bias);
         y1_vl1 = _mm256_add_epi32(y1_vl1, y_bias);
 
-        y0_vl0 = _mm256_srai_epi32::<PRECISION>(y0_vl0);
-        y0_vl1 = _mm256_srai_epi32::<PRECISION>(y0_vl1);
-        y1_vl0 = _mm256_srai_epi32::<PRECISION>(y1_vl0);
-        y1_vl1 = _mm256_srai_epi32::<PRECISION>(y1_vl1);
+        y0_vl0 = _mm256_srli_epi32::<PRECISION>(y0_vl0);
+        y0_vl1 = _mm256_srli_epi32::<PRECISION>(y0_vl1);
+        y1_vl0 = _mm256_srli_epi32::<PRECISION>(y1_vl0);
+        y1_vl1 = _mm256_srli_epi32::<PRECISION>(y1_vl1);
 
         let mut y0_vl = _mm256_packus_epi32(y0_vl0, y0_vl1);
         let mut y1_vl = _mm256_packus_epi32(y1_vl0, y1_vl1);
@@ -503,8 +503,8 @@ unsafe fn avx_rgba_to_yuv_impl_d16<
         cb_0 = _mm256_add_epi32(cb_0, uv_bias);
         cr_0 = _mm256_add_epi32(cr_0, uv_bias);
 
-        cb_0 = _mm256_srai_epi32::<PRECISION>(cb_0);
-        cr_0 = _mm256_srai_epi32::<PRECISION>(cr_0);
+        cb_0 = _mm256_srli_epi32::<PRECISION>(cb_0);
+        cr_0 = _mm256_srli_epi32::<PRECISION>(cr_0);
 
         let mut cb_s = avx2_pack_u32(cb_0, cb_0);
         let mut cr_s = avx2_pack_u32(cr_0, cr_0);
diff --git a/src/avx2/rgb_to_yuv_p16_d16.rs b/src/avx2/rgb_to_yuv_p16_d16.rs
index 3c9b03c..ca119e2 100644
--- a/src/avx2/rgb_to_yuv_p16_d16.rs
+++ b/src/avx2/rgb_to_yuv_p16_d16.rs
@@ -230,8 +230,8 @@ unsafe fn avx_rgba_to_yuv_d16_impl<
         y_vl0 = _mm256_add_epi32(y_vl0, y_vl0_2);
         y_vl1 = _mm256_add_epi32(y_vl1, y_vl1_2);
 
-        y_vl0 = _mm256_srai_epi32::<PRECISION>(y_vl0);
-        y_vl1 = _mm256_srai_epi32::<PRECISION>(y_vl1);
+        y_vl0 = _mm256_srli_epi32::<PRECISION>(y_vl0);
+        y_vl1 = _mm256_srli_epi32::<PRECISION>(y_vl1);
 
         let mut y_vl = _mm256_packus_epi32(y_vl0, y_vl1);
 
@@ -290,10 +290,10 @@ unsafe fn avx_rgba_to_yuv_d16_impl<
             cr_vl0 = _mm256_add_epi32(cr_vl0, cr_vl0_b);
             cr_vl1 = _mm256_add_epi32(cr_vl1, cr_vl1_b);
 
-            cb_vl0 = _mm256_srai_epi32::<PRECISION>(cb_vl0);
-            cb_vl1 = _mm256_srai_epi32::<PRECISION>(cb_vl1);
-            cr_vl0 = _mm256_srai_epi32::<PRECISION>(cr_vl0);
-            cr_vl1 = _mm256_srai_epi32::<PRECISION>(cr_vl1);
+            cb_vl0 = _mm256_srli_epi32::<PRECISION>(cb_vl0);
+            cb_vl1 = _mm256_srli_epi32::<PRECISION>(cb_vl1);
+            cr_vl0 = _mm256_srli_epi32::<PRECISION>(cr_vl0);
+            cr_vl1 = _mm256_srli_epi32::<PRECISION>(cr_vl1);
 
             let mut cb_vl = _mm256_packus_epi32(cb_vl0, cb_vl1);
             let mut cr_vl = _mm256_packus_epi32(cr_vl0, cr_vl1);
@@ -341,8 +341,8 @@ unsafe fn avx_rgba_to_yuv_d16_impl<
             cb_0 = _mm256_add_epi32(cb_0, cb_2);
             cr_0 = _mm256_add_epi32(cr_0, cr_2);
 
-            cb_0 = _mm256_srai_epi32::<PRECISION>(cb_0);
-            cr_0 = _mm256_srai_epi32::<PRECISION>(cr_0);
+            cb_0 = _mm256_srli_epi32::<PRECISION>(cb_0);
+            cr_0 = _mm256_srli_epi32::<PRECISION>(cr_0);
 
             let mut cb_s = avx2_pack_u32(cb_0, cb_0);
             let mut cr_s = avx2_pack_u32(cr_0, cr_0);
@@ -434,8 +434,8 @@ unsafe fn avx_rgba_to_yuv_d16_impl<
         y_vl0 = _mm256_add_epi32(y_vl0, y_vl0_2);
         y_vl1 = _mm256_add_epi32(y_vl1, y_vl1_2);
 
-        y_vl0 = _mm256_srai_epi32::<PRECISION>(y_vl0);
-        y_vl1 = _mm256_srai_epi32::<PRECISION>(y_vl1);
+        y_vl0 = _mm256_srli_epi32::<PRECISION>(y_vl0);
+        y_vl1 = _mm256_srli_epi32::<PRECISION>(y_vl1);
 
         let mut y_vl = _mm256_packus_epi32(y_vl0, y_vl1);
 
@@ -491,10 +491,10 @@ unsafe fn avx_rgba_to_yuv_d16_impl<
             cr_vl0 = _mm256_add_epi32(cr_vl0, cr_vl0_b);
             cr_vl1 = _mm256_add_epi32(cr_vl1, cr_vl1_b);
 
-            cb_vl0 = _mm256_srai_epi32::<PRECISION>(cb_vl0);
-            cb_vl1 = _mm256_srai_epi32::<PRECISION>(cb_vl1);
-            cr_vl0 = _mm256_srai_epi32::<PRECISION>(cr_vl0);
-            cr_vl1 = _mm256_srai_epi32::<PRECISION>(cr_vl1);
+            cb_vl0 = _mm256_srli_epi32::<PRECISION>(cb_vl0);
+            cb_vl1 = _mm256_srli_epi32::<PRECISION>(cb_vl1);
+            cr_vl0 = _mm256_srli_epi32::<PRECISION>(cr_vl0);
+            cr_vl1 = _mm256_srli_epi32::<PRECISION>(cr_vl1);
 
             let mut cb_vl = _mm256_packus_epi32(cb_vl0, cb_vl1);
             let mut cr_vl = _mm256_packus_epi32(cr_vl0, cr_vl1);
@@ -534,8 +534,8 @@ unsafe fn avx_rgba_to_yuv_d16_impl<
             cb_0 = _mm256_add_epi32(cb_0, cb_2);
             cr_0 = _mm256_add_epi32(cr_0, cr_2);
 
-            cb_0 = _mm256_srai_epi32::<PRECISION>(cb_0);
-            cr_0 = _mm256_srai_epi32::<PRECISION>(cr_0);
+            cb_0 = _mm256_srli_epi32::<PRECISION>(cb_0);
+            cr_0 = _mm256_srli_epi32::<PRECISION>(cr_0);
 
             let mut cb_s = avx2_pack_u32(cb_0, cb_0);
             let mut cr_s = avx2_pack_u32(cr_0, cr_0);
diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index c9a618e..ad2a54c 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -59,6 +59,24 @@ fn transform_integer<const ENDIANNESS: u8, const BYTES_POSITION: u8, const BIT_D
     }
 }
 
+/// Weighted sum of a pixel with its bias, descaled.
+/// 16 bit components with 15 bit coefficients do not fit an i32 accumulator.
+#[inline(always)]
+fn weigh<const BIT_DEPTH: usize, const PRECISION: i32>(
+    pixel: (i32, i32, i32),
+    weights: (i32, i32, i32),
+    bias: i32,
+) -> i32 {
+    let (r, g, b) = pixel;
+    let (wr, wg, wb) = weights;
+    if BIT_DEPTH >= 16 {
+        let v = r as i64 * wr as i64 + g as i64 * wg as i64 + b as i64 * wb as i64 + bias as i64;
+        (v >> PRECISION).min(u16::MAX as i64) as i32
+    } else {
+        (r * wr + g * wg + b * wb + bias) >> PRECISION
+    }
+}
+
 type RgbEncoderHandler = Option<
     unsafe fn(
         transform: &CbCrForwardTransform<i32>,
@@ -514,79 +532,96 @@ fn rgbx_to_yuv_ant<
     let bias_y = range.bias_y as i32 * (1 << PRECISION) + rnd_const;
     let bias_uv = range.bias_uv as i32 * (1 << PRECISION) + rnd_const;
 
-    let process_halved_chroma_row = |y_plane: &mut [u16],
-                                     u_plane: &mut [u16],
-                                     v_plane: &mut [u16],
-                                     rgba| {
-        let processed_offset = handler.handle_row(
-            y_plane,
-            u_plane,
-            v_plane,
-            rgba,
-            image.width,
-            range,
-            &transform,
-        );
-        let cx = processed_offset.cx;
-        if cx != image.width as usize {
-            for (((y_dst, u_dst), v_dst), rgba) in y_plane
-                .chunks_exact_mut(2)
-                .zip(u_plane.iter_mut())
-                .zip(v_plane.iter_mut())
-                .zip(rgba.chunks_exact(channels * 2))
-                .skip(cx / 2)
-            {
-                let r0 = rgba[src_chans.get_r_channel_offset()] as i32;
-                let g0 = rgba[src_chans.get_g_channel_offset()] as i32;
-                let b0 = rgba[src_chans.get_b_channel_offset()] as i32;
-                let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
-                    >> PRECISION;
-                y_dst[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_0);
-
-                let r1 = rgba[channels + src_chans.get_r_channel_offset()] as i32;
-                let g1 = rgba[channels + src_chans.get_g_channel_offset()] as i32;
-                let b1 = rgba[channels + src_chans.get_b_channel_offset()] as i32;
-                let y_1 = (r1 * transform.yr + g1 * transform.yg + b1 * transform.yb + bias_y)
-                    >> PRECISION;
-                y_dst[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_1);
-
-                let r = (r0 + r1 + 1) >> 1;
-                let g = (g0 + g1 + 1) >> 1;
-                let b = (b0 + b1 + 1) >> 1;
-
-                let cb = (r * transform.cb_r + g * transform.cb_g + b * transform.cb_b + bias_uv)
-                    >> PRECISION;
-                let cr = (r * transform.cr_r + g * transform.cr_g + b * transform.cr_b + bias_uv)
-                    >> PRECISION;
-                *u_dst = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cb);
-                *v_dst = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cr);
-            }
+    let process_halved_chroma_row =
+        |y_plane: &mut [u16], u_plane: &mut [u16], v_plane: &mut [u16], rgba| {
+            let processed_offset = handler.handle_row(
+                y_plane,
+                u_plane,
+                v_plane,
+                rgba,
+                image.width,
+                range,
+                &transform,
+            );
+            let cx = processed_offset.cx;
+            if cx != image.width as usize {
+                for (((y_dst, u_dst), v_dst), rgba) in y_plane
+                    .chunks_exact_mut(2)
+                    .zip(u_plane.iter_mut())
+                    .zip(v_plane.iter_mut())
+                    .zip(rgba.chunks_exact(channels * 2))
+                    .skip(cx / 2)
+                {
+                    let r0 = rgba[src_chans.get_r_channel_offset()] as i32;
+                    let g0 = rgba[src_chans.get_g_channel_offset()] as i32;
+                    let b0 = rgba[src_chans.get_b_channel_offset()] as i32;
+                    let y_0 = weigh::<BIT_DEPTH, PRECISION>(
+                        (r0, g0, b0),
+                        (transform.yr, transform.yg, transform.yb),
+                        bias_y,
+                    );
+                    y_dst[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_0);
+
+                    let r1 = rgba[channels + src_chans.get_r_channel_offset()] as i32;
+                    let g1 = rgba[channels + src_chans.get_g_channel_offset()] as i32;
+                    let b1 = rgba[channels + src_chans.get_b_channel_offset()] as i32;
+                    let y_1 = weigh::<BIT_DEPTH, PRECISION>(
+                        (r1, g1, b1),
+                        (transform.yr, transform.yg, transform.yb),
+                        bias_y,
+                    );
+                    y_dst[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_1);
+
+                    let r = (r0 + r1 + 1) >> 1;
+                    let g = (g0 + g1 + 1) >> 1;
+                    let b = (b0 + b1 + 1) >> 1;
+
+                    let cb = weigh::<BIT_DEPTH, PRECISION>(
+                        (r, g, b),
+                        (transform.cb_r, transform.cb_g, transform.cb_b),
+                        bias_uv,
+                    );
+                    let cr = weigh::<BIT_DEPTH, PRECISION>(
+                        (r, g, b),
+                        (transform.cr_r, transform.cr_g, transform.cr_b),
+                        bias_uv,
+                    );
+                    *u_dst = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cb);
+                    *v_dst = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cr);
+                }
 
-            if image.width & 1 != 0 {
-                let rgb_last = rgba.chunks_exact(channels * 2).remainder();
-                let r0 = rgb_last[src_chans.get_r_channel_offset()] as i32;
-                let g0 = rgb_last[src_chans.get_g_channel_offset()] as i32;
-                let b0 = rgb_last[src_chans.get_b_channel_offset()] as i32;
-
-                let y_last = y_plane.last_mut().unwrap();
-                let u_last = u_plane.last_mut().unwrap();
-                let v_last = v_plane.last_mut().unwrap();
-
-                let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
-                    >> PRECISION;
-                *y_last = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_0);
-
-                let cb =
-                    (r0 * transform.cb_r + g0 * transform.cb_g + b0 * transform.cb_b + bias_uv)
-                        >> PRECISION;
-                let cr =
-                    (r0 * transform.cr_r + g0 * transform.cr_g + b0 * transform.cr_b + bias_uv)
-                        >> PRECISION;
-                *u_last = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cb);
-                *v_last = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cr);
+                if image.width & 1 != 0 {
+                    let rgb_last = rgba.chunks_exact(channels * 2).remainder();
+                    let r0 = rgb_last[src_chans.get_r_channel_offset()] as i32;
+                    let g0 = rgb_last[src_chans.get_g_channel_offset()] as i32;
+                    let b0 = rgb_last[src_chans.get_b_channel_offset()] as i32;
+
+                    let y_last = y_plane.last_mut().unwrap();
+                    let u_last = u_plane.last_mut().unwrap();
+                    let v_last = v_plane.last_mut().unwrap();
+
+                    let y_0 = weigh::<BIT_DEPTH, PRECISION>(
+                        (r0, g0, b0),
+                        (transform.yr, transform.yg, transform.yb),
+                        bias_y,
+                    );
+                    *y_last = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_0);
+
+                    let cb = weigh::<BIT_DEPTH, PRECISION>(
+                        (r0, g0, b0),
+                        (transform.cb_r, transform.cb_g, transform.cb_b),
+                        bias_uv,
+                    );
+                    let cr = weigh::<BIT_DEPTH, PRECISION>(
+                        (r0, g0, b0),
+                        (transform.cr_r, transform.cr_g, transform.cr_b),
+                        bias_uv,
+                    );
+                    *u_last = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cb);
+                    *v_last = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cr);
+                }
             }
-        }
-    };
+        };
 
     let process_double_chroma_row = |y_plane0: &mut [u16],
                                      y_plane1: &mut [u16],
@@ -619,41 +654,59 @@ fn rgbx_to_yuv_ant<
             let r00 = rgba0[src_chans.get_r_channel_offset()] as i32;
             let g00 = rgba0[src_chans.get_g_channel_offset()] as i32;
             let b00 = rgba0[src_chans.get_b_channel_offset()] as i32;
-            let y_00 = (r00 * transform.yr + g00 * transform.yg + b00 * transform.yb + bias_y)
-                >> PRECISION;
+            let y_00 = weigh::<BIT_DEPTH, PRECISION>(
+                (r00, g00, b00),
+                (transform.yr, transform.yg, transform.yb),
+                bias_y,
+            );
             y_dst0[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_00);
 
             let rgba01 = &rgba0[channels..channels * 2];
             let r01 = rgba01[src_chans.get_r_channel_offset()] as i32;
             let g01 = rgba01[src_chans.get_g_channel_offset()] as i32;
             let b01 = rgba01[src_chans.get_b_channel_offset()] as i32;
-            let y_01 = (r01 * transform.yr + g01 * transform.yg + b01 * transform.yb + bias_y)
-                >> PRECISION;
+            let y_01 = weigh::<BIT_DEPTH, PRECISION>(
+                (r01, g01, b01),
+                (transform.yr, transform.yg, transform.yb),
+                bias_y,
+            );
             y_dst0[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_01);
 
             let r10 = rgba1[src_chans.get_r_channel_offset()] as i32;
             let g10 = rgba1[src_chans.get_g_channel_offset()] as i32;
             let b10 = rgba1[src_chans.get_b_channel_offset()] as i32;
-            let y_10 = (r10 * transform.yr + g10 * transform.yg + b10 * transform.yb + bias_y)
-                >> PRECISION;
+            let y_10 = weigh::<BIT_DEPTH, PRECISION>(
+                (r10, g10, b10),
+                (transform.yr, transform.yg, transform.yb),
+                bias_y,
+            );
             y_dst1[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_10);
 
             let rgba11 = &rgba1[channels..channels * 2];
             let r11 = rgba11[src_chans.get_r_channel_offset()] as i32;
             let g11 = rgba11[src_chans.get_g_channel_offset()] as i32;
             let b11 = rgba11[src_chans.get_b_channel_offset()] as i32;
-            let y_11 = (r11 * transform.yr + g11 * transform.yg + b11 * transform.yb + bias_y)
-                >> PRECISION;
+            let y_11 = weigh::<BIT_DEPTH, PRECISION>(
+                (r11, g11, b11),
+                (transform.yr, transform.yg, transform.yb),
+                bias_y,
+            );
             y_dst1[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_11);
 
             let r = (r00 + r01 + r10 + r11 + 2) >> 2;
             let g = (g00 + g01 + g10 + g11 + 2) >> 2;
             let b = (b00 + b01 + b10 + b11 + 2) >> 2;
 
-            let cb = (r * transform.cb_r + g * transform.cb_g + b * transform.cb_b + bias_uv)
-                >> PRECISION;
-            let cr = (r * transform.cr_r + g * transform.cr_g + b * transform.cr_b + bias_uv)
-                >> PRECISION;
+            let cb = weigh::<BIT_DEPTH, PRECISION>(
+                (r, g, b),
+                (transform.cb_r, transform.cb_g, transform.cb_b),
+                bias_uv,
+            );
+            let cr = weigh::<BIT_DEPTH, PRECISION>(
+                (r, g, b),
+                (transform.cr_r, transform.cr_g, transform.cr_b),
+                bias_uv,
+            );
             *u_dst = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cb);
             *v_dst = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cr);
         }
@@ -674,22 +727,34 @@ fn rgbx_to_yuv_ant<
             let u_last = u_plane.last_mut().unwrap();
             let v_last = v_plane.last_mut().unwrap();
 
-            let y_0 =
-                (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y) >> PRECISION;
+            let y_0 = weigh::<BIT_DEPTH, PRECISION>(
+                (r0, g0, b0),
+                (transform.yr, transform.yg, transform.yb),
+                bias_y,
+            );
             *y0_last = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_0);
 
-            let y_1 =
-                (r1 * transform.yr + g1 * transform.yg + b1 * transform.yb + bias_y) >> PRECISION;
+            let y_1 = weigh::<BIT_DEPTH, PRECISION>(
+                (r1, g1, b1),
+                (transform.yr, transform.yg, transform.yb),
+                bias_y,
+            );
             *y1_last = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_1);
 
             let r = (r0 + r1 + 1) >> 1;
             let g = (g0 + g1 + 1) >> 1;
             let b = (b0 + b1 + 1) >> 1;
 
-            let cb = (r * transform.cb_r + g * transform.cb_g + b * transform.cb_b + bias_uv)
-                >> PRECISION;
-            let cr = (r * transform.cr_r + g * transform.cr_g + b * transform.cr_b + bias_uv)
-                >> PRECISION;
+            let cb = weigh::<BIT_DEPTH, PRECISION>(
+                (r, g, b),
+                (transform.cb_r, transform.cb_g, transform.cb_b),
+                bias_uv,
+            );
+            let cr = weigh::<BIT_DEPTH, PRECISION>(
+                (r, g, b),
+                (transform.cr_r, transform.cr_g, transform.cr_b),
+                bias_uv,
+            );
             *u_last = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cb);
             *v_last = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cr);
         }
@@ -745,16 +810,23 @@ fn rgbx_to_yuv_ant<
                     let r0 = rgba[src_chans.get_r_channel_offset()] as i32;
                     let g0 = rgba[src_chans.get_g_channel_offset()] as i32;
                     let b0 = rgba[src_chans.get_b_channel_offset()] as i32;
-                    let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
-                        >> PRECISION;
+                    let y_0 = weigh::<BIT_DEPTH, PRECISION>(
+                        (r0, g0, b0),
+                        (transform.yr, transform.yg, transform.yb),
+                        bias_y,
+                    );
                     *y_dst = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_0);
 
-                    let cb =
-                        (r0 * transform.cb_r + g0 * transform.cb_g + b0 * transform.cb_b + bias_uv)
-                            >> PRECISION;
-                    let cr =
-                        (r0 * transform.cr_r + g0 * transform.cr_g + b0 * transform.cr_b + bias_uv)
-                            >> PRECISION;
+                    let cb = weigh::<BIT_DEPTH, PRECISION>(
+                        (r0, g0, b0),
+                        (transform.cb_r, transform.cb_g, transform.cb_b),
+                        bias_uv,
+                    );
+                    let cr = weigh::<BIT_DEPTH, PRECISION>(
+                        (r0, g0, b0),
+                        (transform.cr_r, transform.cr_g, transform.cr_b),
+                        bias_uv,
+                    );
                     *u_dst = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cb);
                     *v_dst = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cr);
                 }
diff --git a/src/rgb_to_nv_p16.rs b/src/rgb_to_nv_p16.rs
index c91c9c2..e384a72 100644
--- a/src/rgb_to_nv_p16.rs
+++ b/src/rgb_to_nv_p16.rs
@@ -58,6 +58,24 @@ fn transform_integer<const ENDIANNESS: u8, const BYTES_POSITION: u8, const BIT_D
     }
 }
 
+/// Weighted sum of a pixel with its bias, descaled.
+/// 16 bit components with 15 bit coefficients do not fit an i32 accumulator.
+#[inline(always)]
+fn weigh<const BIT_DEPTH: u8, const PRECISION: i32>(
+    pixel: (i32, i32, i32),
+    weights: (i32, i32, i32),
+    bias: i32,
+) -> i32 {
+    let (r, g, b) = pixel;
+    let (wr, wg, wb) = weights;
+    if BIT_DEPTH >= 16 {
+        let v = r as i64 * wr as i64 + g as i64 * wg as i64 + b as i64 * wb as i64 + bias as i64;
+        (v >> PRECISION).min(u16::MAX as i64) as i32
+    } else {
+        (r * wr + g * wg + b * wb + bias) >> PRECISION
+    }
+}
+
 fn rgbx_to_yuv_bi_planar_10_impl<
     J: AsPrimitive<i32> + Copy + Send + Sync,
     const ORIGIN_CHANNELS: u8,
@@ -117,11 +135,11 @@ where
             let g00 = rgba00[src_chans.get_g_channel_offset()] as i32;
             let b00 = rgba00[src_chans.get_b_channel_offset()] as i32;
 
-            let y_00 = (r00 * transform.yr.as_()
-                + g00 * transform.yg.as_()
-                + b00 * transform.yb.as_()
-                + bias_y)
-                >> PRECISION;
+            let y_00 = weigh::<BIT_DEPTH, PRECISION>(
+                (r00, g00, b00),
+                (transform.yr.as_(), transform.yg.as_(), transform.yb.as_()),
+                bias_y,
+            );
             y_dst0[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_00);
 
             let rgba01 = &rgba0[channels..channels * 2];
@@ -130,11 +148,11 @@ where
             let g01 = rgba01[src_chans.get_g_channel_offset()] as i32;
             let b01 = rgba01[src_chans.get_b_channel_offset()] as i32;
 
-            let y_01 = (r01 * transform.yr.as_()
-                + g01 * transform.yg.as_()
-                + b01 * transform.yb.as_()
-                + bias_y)
-                >> PRECISION;
+            let y_01 = weigh::<BIT_DEPTH, PRECISION>(
+                (r01, g01, b01),
+                (transform.yr.as_(), transform.yg.as_(), transform.yb.as_()),
+                bias_y,
+            );
             y_dst0[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_01);
 
             let rgba01 = &rgba1[0..channels];
@@ -142,11 +160,11 @@ where
             let g10 = rgba01[src_chans.get_g_channel_offset()] as i32;
             let b10 = rgba01[src_chans.get_b_channel_offset()] as i32;
 
-            let y_10 = (r10 * transform.yr.as_()
-                + g10 * transform.yg.as_()
-                + b10 * transform.yb.as_()
-                + bias_y)
-                >> PRECISION;
+            let y_10 = weigh::<BIT_DEPTH, PRECISION>(
+                (r10, g10, b10),
+                (transform.yr.as_(), transform.yg.as_(), transform.yb.as_()),
+                bias_y,
+            );
             y_dst1[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_10);
 
             let rgba11 = &rgba1[channels..channels * 2];
@@ -155,27 +173,35 @@ where
             let g11 = rgba11[src_chans.get_g_channel_offset()] as i32;
             let b11 = rgba11[src_chans.get_b_channel_offset()] as i32;
 
-            let y_11 = (r11 * transform.yr.as_()
-                + g11 * transform.yg.as_()
-                + b11 * transform.yb.as_()
-                + bias_y)
-                >> PRECISION;
+            let y_11 = weigh::<BIT_DEPTH, PRECISION>(
+                (r11, g11, b11),
+                (transform.yr.as_(), transform.yg.as_(), transform.yb.as_()),
+                bias_y,
+            );
             y_dst1[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_11);
 
             let r = (r00 + r01 + r10 + r11 + 2) >> 2;
             let g = (g00 + g01 + g10 + g11 + 2) >> 2;
             let b = (b00 + b01 + b10 + b11 + 2) >> 2;
 
-            let cb = (r * transform.cb_r.as_()
-                + g * transform.cb_g.as_()
-                + b * transform.cb_b.as_()
-                + bias_uv)
-                >> PRECISION;
-            let cr = (r * transform.cr_r.as_()
-                + g * transform.cr_g.as_()
-                + b * transform.cr_b.as_()
-                + bias_uv)
-                >> PRECISION;
+            let cb = weigh::<BIT_DEPTH, PRECISION>(
+                (r, g, b),
+                (
+                    transform.cb_r.as_(),
+                    transform.cb_g.as_(),
+                    transform.cb_b.as_(),
+                ),
+                bias_uv,
+            );
+            let cr = weigh::<BIT_DEPTH, PRECISION>(
+                (r, g, b),
+                (
+                    transform.cr_r.as_(),
+                    transform.cr_g.as_(),
+                    transform.cr_b.as_(),
+                ),
+                bias_uv,
+            );
             uv_dst[nv_order.get_u_position()] =
                 transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cb);
             uv_dst[nv_order.get_v_position()] =
@@ -203,30 +229,38 @@ where
             let g = (g0 + g1 + 1) >> 1;
             let b = (b0 + b1 + 1) >> 1;
 
-            let y_0 = (r0 * transform.yr.as_()
-                + g0 * transform.yg.as_()
-                + b0 * transform.yb.as_()
-                + bias_y)
-                >> PRECISION;
+            let y_0 = weigh::<BIT_DEPTH, PRECISION>(
+                (r0, g0, b0),
+                (transform.yr.as_(), transform.yg.as_(), transform.yb.as_()),
+                bias_y,
+            );
             y_dst0[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_0);
 
-            let y_1 = (r1 * transform.yr.as_()
-                + g1 * transform.yg.as_()
-                + b1 * transform.yb.as_()
-                + bias_y)
-                >> PRECISION;
+            let y_1 = weigh::<BIT_DEPTH, PRECISION>(
+                (r1, g1, b1),
+                (transform.yr.as_(), transform.yg.as_(), transform.yb.as_()),
+                bias_y,
+            );
             y_dst1[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_1);
 
-            let cb = (r * transform.cb_r.as_()
-                + g * transform.cb_g.as_()
-                + b * transform.cb_b.as_()
-                + bias_uv)
-                >> PRECISION;
-            let cr = (r * transform.cr_r.as_()
-                + g * transform.cr_g.as_()
-                + b * transform.cr_b.as_()
-                + bias_uv)
-                >> PRECISION;
+            let cb = weigh::<BIT_DEPTH, PRECISION>(
+                (r, g, b),
+                (
+                    transform.cb_r.as_(),
+                    transform.cb_g.as_(),
+                    transform.cb_b.as_(),
+                ),
+                bias_uv,
+            );
+            let cr = weigh::<BIT_DEPTH, PRECISION>(
+                (r, g, b),
+                (
+                    transform.cr_r.as_(),
+                    transform.cr_g.as_(),
+                    transform.cr_b.as_(),
+                ),
+                bias_uv,
+            );
             uv_dst[nv_order.get_u_position()] =
                 transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cb);
             uv_dst[nv_order.get_v_position()] =
@@ -244,11 +278,11 @@ where
             let r0 = rgba0[src_chans.get_r_channel_offset()] as i32;
             let g0 = rgba0[src_chans.get_g_channel_offset()] as i32;
             let b0 = rgba0[src_chans.get_b_channel_offset()] as i32;
-            let y_0 = (r0 * transform.yr.as_()
-                + g0 * transform.yg.as_()
-                + b0 * transform.yb.as_()
-                + bias_y)
-                >> PRECISION;
+            let y_0 = weigh::<BIT_DEPTH, PRECISION>(
+                (r0, g0, b0),
+                (transform.yr.as_(), transform.yg.as_(), transform.yb.as_()),
+                bias_y,
+            );
             y_dst[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_0);
 
             let rgba1 = &rgba[channels..channels * 2];
@@ -257,27 +291,35 @@ where
             let g1 = rgba1[src_chans.get_g_channel_offset()] as i32;
             let b1 = rgba1[src_chans.get_b_channel_offset()] as i32;
 
-            let y_1 = (r1 * transform.yr.as_()
-                + g1 * transform.yg.as_()
-                + b1 * transform.yb.as_()
-                + bias_y)
-                >> PRECISION;
+            let y_1 = weigh::<BIT_DEPTH, PRECISION>(
+                (r1, g1, b1),
+                (transform.yr.as_(), transform.yg.as_(), transform.yb.as_()),
+                bias_y,
+            );
             y_dst[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_1);
 
             let r = (r0 + r1 + 1) >> 1;
             let g = (g0 + g1 + 1) >> 1;
             let b = (b0 + b1 + 1) >> 1;
 
-            let cb = (r * transform.cb_r.as_()
-                + g * transform.cb_g.as_()
-                + b * transform.cb_b.as_()
-                + bias_uv)
-                >> PRECISION;
-            let cr = (r * transform.cr_r.as_()
-                + g * transform.cr_g.as_()
-                + b * transform.cr_b.as_()
-                + bias_uv)
-                >> PRECISION;
+            let cb = weigh::<BIT_DEPTH, PRECISION>(
+                (r, g, b),
+                (
+                    transform.cb_r.as_(),
+                    transform.cb_g.as_(),
+                    transform.cb_b.as_(),
+                ),
+                bias_uv,
+            );
+            let cr = weigh::<BIT_DEPTH, PRECISION>(
+                (r, g, b),
+                (
+                    transform.cr_r.as_(),
+                    transform.cr_g.as_(),
+                    transform.cr_b.as_(),
+                ),
+                bias_uv,
+            );
             uv_dst[nv_order.get_u_position()] =
                 transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cb);
             uv_dst[nv_order.get_v_position()] =
@@ -293,23 +335,31 @@ where
             let r0 = rgba[src_chans.get_r_channel_offset()] as i32;
             let g0 = rgba[src_chans.get_g_channel_offset()] as i32;
             let b0 = rgba[src_chans.get_b_channel_offset()] as i32;
-            let y_0 = (r0 * transform.yr.as_()
-                + g0 * transform.yg.as_()
-                + b0 * transform.yb.as_()
-                + bias_y)
-                >> PRECISION;
+            let y_0 = weigh::<BIT_DEPTH, PRECISION>(
+                (r0, g0, b0),
+                (transform.yr.as_(), transform.yg.as_(), transform.yb.as_()),
+                bias_y,
+            );
             y_dst[0] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_0);
 
-            let cb = (r0 * transform.cb_r.as_()
-                + g0 * transform.cb_g.as_()
-                + b0 * transform.cb_b.as_()
-                + bias_uv)
-                >> PRECISION;
-            let cr = (r0 * transform.cr_r.as_()
-                + g0 * transform.cr_g.as_()
-                + b0 * transform.cr_b.as_()
-                + bias_uv)
-                >> PRECISION;
+            let cb = weigh::<BIT_DEPTH, PRECISION>(
+                (r0, g0, b0),
+                (
+                    transform.cb_r.as_(),
+                    transform.cb_g.as_(),
+                    transform.cb_b.as_(),
+                ),
+                bias_uv,
+            );
+            let cr = weigh::<BIT_DEPTH, PRECISION>(
+                (r0, g0, b0),
+                (
+                    transform.cr_r.as_(),
+                    transform.cr_g.as_(),
+                    transform.cr_b.as_(),
+                ),
+                bias_uv,
+            );
             uv_dst[nv_order.get_u_position()] =
                 transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cb);
             uv_dst[nv_order.get_v_position()] =
@@ -348,22 +398,30 @@ where
                 let r0 = rgba[src_chans.get_r_channel_offset()] as i32;
                 let g0 = rgba[src_chans.get_g_channel_offset()] as i32;
                 let b0 = rgba[src_chans.get_b_channel_offset()] as i32;
-                let y_0 = (r0 * transform.yr.as_()
-                    + g0 * transform.yg.as_()
-                    + b0 * transform.yb.as_()
-                    + bias_y)
-                    >> PRECISION;
+                let y_0 = weigh::<BIT_DEPTH, PRECISION>(
+                    (r0, g0, b0),
+                    (transform.yr.as_(), transform.yg.as_(), transform.yb.as_()),
+                    bias_y,
+                );
                 *y_dst = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_0);
-                let cb = (r0 * transform.cb_r.as_()
-                    + g0 * transform.cb_g.as_()
-                    + b0 * transform.cb_b.as_()
-                    + bias_uv)
-                    >> PRECISION;
-                let cr = (r0 * transform.cr_r.as_()
-                    + g0 * transform.cr_g.as_()
-                    + b0 * transform.cr_b.as_()
-                    + bias_uv)
-                    >> PRECISION;
+                let cb = weigh::<BIT_DEPTH, PRECISION>(
+                    (r0, g0, b0),
+                    (
+                        transform.cb_r.as_(),
+                        transform.cb_g.as_(),
+                        transform.cb_b.as_(),
+                    ),
+                    bias_uv,
+                );
+                let cr = weigh::<BIT_DEPTH, PRECISION>(
+                    (r0, g0, b0),
+                    (
+                        transform.cr_r.as_(),
+                        transform.cr_g.as_(),
+                        transform.cr_b.as_(),
+                    ),
+                    bias_uv,
+                );
                 uv_dst[nv_order.get_u_position()] =
                     transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(cb);
                 uv_dst[nv_order.get_v_position()] =
-- 
2.43.0


From 7f79875ba1a68f766adfe8067e6a2af725ad94e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 24/45] fix: AVX-512 high bit-depth RGB -> YUV never stored the
 chroma of the row tail

---
 src/avx512bw/rgb_to_yuv_p16.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/avx512bw/rgb_to_yuv_p16.rs b/src/avx512bw/rgb_to_yuv_p16.rs
index 84adfe3..9ea1092 100644
--- a/src/avx512bw/rgb_to_yuv_p16.rs
+++ b/src/avx512bw/rgb_to_yuv_p16.rs
@@ -307,8 +307,6 @@ unsafe fn avx_rgba_to_yuv_impl<
         let diff = width - cx;
         assert!(diff <= 32);
         let mut src_buffer: [u16; 32 * 4] = [0; 32 * 4];
-        let mut u_buffer: [u16; 32] = [0; 32];
-        let mut v_buffer: [u16; 32] = [0; 32];
 
         // Replicate last item to one more position for subsampling
         if chroma_subsampling != YuvChromaSubsampling::Yuv444 && diff % 2 != 0 {
@@ -378,8 +376,16 @@ unsafe fn avx_rgba_to_yuv_impl<
                 cr_vl = _mm512_shuffle_epi8(cr_vl, big_endian_shuffle_flag);
             }
 
-            _mm512_mask_storeu_epi16(u_buffer.as_mut_ptr() as *mut _, mask, cb_vl);
-            _mm512_mask_storeu_epi16(v_buffer.as_mut_ptr() as *mut _, mask, cr_vl);
+            _mm512_mask_storeu_epi16(
+                u_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                mask,
+                cb_vl,
+            );
+            _mm512_mask_storeu_epi16(
+                v_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                mask,
+                cr_vl,
+            );
         } else {
             let r_values = _mm512_havg_epi16_epi32(r_values);
             let g_values = _mm512_havg_epi16_epi32(g_values);
@@ -408,8 +414,16 @@ unsafe fn avx_rgba_to_yuv_impl<
 
             let halved_mask = 0xffff_ffffu32 >> (32 - diff.div_ceil(2) as u32);
 
-            _mm512_mask_storeu_epi16(u_buffer.as_mut_ptr() as *mut _, halved_mask, cb_s);
-            _mm512_mask_storeu_epi16(v_buffer.as_mut_ptr() as *mut _, halved_mask, cr_s);
+            _mm512_mask_storeu_epi16(
+                u_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                halved_mask,
+                cb_s,
+            );
+            _mm512_mask_storeu_epi16(
+                v_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                halved_mask,
+                cr_s,
+            );
         }
 
         cx += diff;
-- 
2.43.0


From a07d2cb4fd2aa8c09583df49353cf5b1bb0e8555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 25/45] fix: rgba12_to_i212_be wrote 4:2:0

---
 src/rgb16_to_yuv_p16.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index ad2a54c..84fc534 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -1141,7 +1141,7 @@ d_cvn!(
 d_cvn!(
     rgba12_to_i212_be,
     YuvSourceChannels::Rgba,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "I212",
     "RGBA12",
     "rgba12",
-- 
2.43.0


From 3c0b9f227f6330ae4c88924997dbce33a1548956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 26/45] fix: SSE 4:2:0 high bit-depth row used the green of the
 top row in the bottom luma

---
 src/sse/rgb_to_yuv_p16_420.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/rgb_to_yuv_p16_420.rs b/src/sse/rgb_to_yuv_p16_420.rs
index a1310b7..244af76 100644
--- a/src/sse/rgb_to_yuv_p16_420.rs
+++ b/src/sse/rgb_to_yuv_p16_420.rs
@@ -126,7 +126,7 @@ unsafe fn sse_rgba_to_yuv_impl<
         let mut y0_vl =
             _mm_affine_v_dot::<PRECISION>(y_bias, r_g_lo0, r_g_hi0, b_lo0, b_hi0, v_yr_yg, v_yb);
 
-        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values0);
+        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values1);
         let b_hi1 = _mm_unpackhi_epi16(b_values1, zeros);
         let b_lo1 = _mm_unpacklo_epi16(b_values1, zeros);
 
@@ -240,7 +240,7 @@ unsafe fn sse_rgba_to_yuv_impl<
         let mut y0_vl =
             _mm_affine_v_dot::<PRECISION>(y_bias, r_g_lo0, r_g_hi0, b_lo0, b_hi0, v_yr_yg, v_yb);
 
-        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values0);
+        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values1);
         let b_hi1 = _mm_unpackhi_epi16(b_values1, zeros);
         let b_lo1 = _mm_unpacklo_epi16(b_values1, zeros);
 
-- 
2.43.0


From 5dfdfad7bb75b0784ba362c93756854c2dab2619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:34 +0000
Subject: [PATCH 27/45] fix: YUV 4:4:4 -> YUY2 skipped half of the row after
 the SIMD part

---
 src/yuv_to_yuy2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yuv_to_yuy2.rs b/src/yuv_to_yuy2.rs
index 4512b83..cda8390 100644
--- a/src/yuv_to_yuy2.rs
+++ b/src/yuv_to_yuy2.rs
@@ -243,7 +243,7 @@ pub(crate) fn yuv_to_yuy2_impl<
                 .zip(y_src.chunks_exact(2))
                 .zip(u_src.chunks_exact(2))
                 .zip(v_src.chunks_exact(2))
-                .skip(processed)
+                .skip(processed / 2)
             {
                 yuy2[yuy2_target.get_first_y_position()] = y_src[0];
                 yuy2[yuy2_target.get_second_y_position()] = y_src[1];
-- 
2.43.0


From c95d99f01babeeb21f72f7c8e4fcca0b455b9c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 28/45] fix: YUY2 -> planar YUV: row tail after the SIMD part,
 untrimmed V row, last 4:2:0 column and odd last row

---
 src/yuy2_to_yuv.rs     | 116 +++++++++++++++++++++++------------------
 src/yuy2_to_yuv_p16.rs | 106 +++++++++++++++++++++----------------
 2 files changed, 127 insertions(+), 95 deletions(-)

diff --git a/src/yuy2_to_yuv.rs b/src/yuy2_to_yuv.rs
index d565919..ffaf1b0 100644
--- a/src/yuy2_to_yuv.rs
+++ b/src/yuy2_to_yuv.rs
@@ -146,7 +146,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..planar_image.width as usize];
-            let u_dst = &mut u_dst[0..planar_image.width as usize];
+            let v_dst = &mut v_dst[0..planar_image.width as usize];
 
             let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2_src);
 
@@ -155,7 +155,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 .zip(u_dst.chunks_exact_mut(2))
                 .zip(v_dst.chunks_exact_mut(2))
                 .zip(yuy2_src.chunks_exact(4))
-                .skip(p_offset.cx)
+                .skip(p_offset.cx / 2)
             {
                 let first_y_position = yuy2[yuy2_target.get_first_y_position()];
                 let second_y_position = yuy2[yuy2_target.get_second_y_position()];
@@ -210,7 +210,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-            let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+            let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
             let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2_src);
 
@@ -219,7 +219,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 .zip(u_dst.iter_mut())
                 .zip(v_dst.iter_mut())
                 .zip(yuy2_src.chunks_exact(4))
-                .skip(p_offset.cx)
+                .skip(p_offset.cx / 2)
             {
                 let first_y_position = yuy2[yuy2_target.get_first_y_position()];
                 let second_y_position = yuy2[yuy2_target.get_second_y_position()];
@@ -243,6 +243,56 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
+        let process_rows =
+            |y_dst: &mut [u8], u_dst: &mut [u8], v_dst: &mut [u8], yuy2_src: &[u8]| {
+                for (y, (y_dst, yuy2)) in y_dst
+                    .chunks_exact_mut(y_stride as usize)
+                    .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
+                    .enumerate()
+                {
+                    let yuy2 = &yuy2[0..yuy2_width];
+                    let y_dst = &mut y_dst[0..planar_image.width as usize];
+                    let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+                    let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
+
+                    let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2);
+
+                    let process_chroma = y & 1 == 0;
+
+                    for (((y_dst, u_dst), v_dst), yuy2) in y_dst
+                        .chunks_exact_mut(2)
+                        .zip(u_dst.iter_mut())
+                        .zip(v_dst.iter_mut())
+                        .zip(yuy2.chunks_exact(4))
+                        .skip(p_offset.cx / 2)
+                    {
+                        let first_y_position = yuy2[yuy2_target.get_first_y_position()];
+                        let second_y_position = yuy2[yuy2_target.get_second_y_position()];
+                        y_dst[0] = first_y_position;
+                        y_dst[1] = second_y_position;
+                        if process_chroma {
+                            let u_value = yuy2[yuy2_target.get_u_position()];
+                            let v_value = yuy2[yuy2_target.get_v_position()];
+                            *u_dst = u_value;
+                            *v_dst = v_value;
+                        }
+                    }
+
+                    if width & 1 != 0 {
+                        let y_dst = y_dst.last_mut().unwrap();
+                        let yuy2 = yuy2.chunks_exact(4).last().unwrap();
+                        let yuy2 = &yuy2[0..4];
+                        *y_dst = yuy2[yuy2_target.get_first_y_position()];
+                        if process_chroma {
+                            let u_dst = u_dst.last_mut().unwrap();
+                            let v_dst = v_dst.last_mut().unwrap();
+                            *u_dst = yuy2[yuy2_target.get_u_position()];
+                            *v_dst = yuy2[yuy2_target.get_v_position()];
+                        }
+                    }
+                }
+            };
+
         let iter;
         #[cfg(feature = "rayon")]
         {
@@ -269,53 +319,19 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 );
         }
         iter.for_each(|(((y_dst, u_dst), v_dst), yuy2_src)| {
-            for (y, (y_dst, yuy2)) in y_dst
-                .chunks_exact_mut(y_stride as usize)
-                .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
-                .enumerate()
-            {
-                let yuy2 = &yuy2[0..yuy2_width];
-                let y_dst = &mut y_dst[0..planar_image.width as usize];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-
-                let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2);
-
-                let process_chroma = y & 1 == 0;
-
-                for (((y_dst, u_dst), v_dst), yuy2) in y_dst
-                    .chunks_exact_mut(2)
-                    .zip(u_dst.iter_mut())
-                    .zip(v_dst.iter_mut())
-                    .zip(yuy2.chunks_exact(4))
-                    .skip(p_offset.cx)
-                {
-                    let first_y_position = yuy2[yuy2_target.get_first_y_position()];
-                    let second_y_position = yuy2[yuy2_target.get_second_y_position()];
-                    y_dst[0] = first_y_position;
-                    y_dst[1] = second_y_position;
-                    if process_chroma {
-                        let u_value = yuy2[yuy2_target.get_u_position()];
-                        let v_value = yuy2[yuy2_target.get_v_position()];
-                        *u_dst = u_value;
-                        *v_dst = v_value;
-                    }
-                }
-
-                if width & 1 != 0 {
-                    let y_dst = y_dst.last_mut().unwrap();
-                    let yuy2 = yuy2_src.chunks_exact(4).last().unwrap();
-                    let yuy2 = &yuy2[0..4];
-                    *y_dst = yuy2[yuy2_target.get_first_y_position()];
-                    if process_chroma {
-                        let u_dst = u_dst.last_mut().unwrap();
-                        let v_dst = v_dst.last_mut().unwrap();
-                        *u_dst = yuy2[yuy2_target.get_u_position()];
-                        *v_dst = yuy2[yuy2_target.get_v_position()];
-                    }
-                }
-            }
+            process_rows(y_dst, u_dst, v_dst, yuy2_src);
         });
+
+        if planar_image.height & 1 != 0 {
+            let last_row = planar_image.height as usize - 1;
+            let last_chroma_row = last_row / 2;
+            process_rows(
+                &mut y_plane[last_row * y_stride as usize..],
+                &mut u_plane[last_chroma_row * u_stride as usize..],
+                &mut v_plane[last_chroma_row * v_stride as usize..],
+                &packed_image.yuy[last_row * packed_image.yuy_stride as usize..],
+            );
+        }
     }
 
     Ok(())
diff --git a/src/yuy2_to_yuv_p16.rs b/src/yuy2_to_yuv_p16.rs
index 225bd28..c7b397b 100644
--- a/src/yuy2_to_yuv_p16.rs
+++ b/src/yuy2_to_yuv_p16.rs
@@ -90,7 +90,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..planar_image.width as usize];
-            let u_dst = &mut u_dst[0..planar_image.width as usize];
+            let v_dst = &mut v_dst[0..planar_image.width as usize];
 
             for (((y_dst, u_dst), v_dst), yuy2) in y_dst
                 .chunks_exact_mut(2)
@@ -151,7 +151,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-            let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+            let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
             for (((y_dst, u_dst), v_dst), yuy2) in y_dst
                 .chunks_exact_mut(2)
@@ -181,6 +181,53 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
+        let process_rows =
+            |y_dst: &mut [u16], u_dst: &mut [u16], v_dst: &mut [u16], yuy2_src: &[u16]| {
+                for (y, (y_dst, yuy2)) in y_dst
+                    .chunks_exact_mut(y_stride as usize)
+                    .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
+                    .enumerate()
+                {
+                    let yuy2 = &yuy2[0..yuy2_width];
+                    let y_dst = &mut y_dst[0..planar_image.width as usize];
+                    let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+                    let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
+
+                    let process_chroma = y & 1 == 0;
+
+                    for (((y_dst, u_dst), v_dst), yuy2) in y_dst
+                        .chunks_exact_mut(2)
+                        .zip(u_dst.iter_mut())
+                        .zip(v_dst.iter_mut())
+                        .zip(yuy2.chunks_exact(4))
+                    {
+                        let first_y_position = yuy2[yuy2_target.get_first_y_position()];
+                        let second_y_position = yuy2[yuy2_target.get_second_y_position()];
+                        y_dst[0] = first_y_position;
+                        y_dst[1] = second_y_position;
+                        if process_chroma {
+                            let u_value = yuy2[yuy2_target.get_u_position()];
+                            let v_value = yuy2[yuy2_target.get_v_position()];
+                            *u_dst = u_value;
+                            *v_dst = v_value;
+                        }
+                    }
+
+                    if width & 1 != 0 {
+                        let y_dst = y_dst.last_mut().unwrap();
+                        let yuy2 = yuy2.chunks_exact(4).last().unwrap();
+                        let yuy2 = &yuy2[0..4];
+                        *y_dst = yuy2[yuy2_target.get_first_y_position()];
+                        if process_chroma {
+                            let u_dst = u_dst.last_mut().unwrap();
+                            let v_dst = v_dst.last_mut().unwrap();
+                            *u_dst = yuy2[yuy2_target.get_u_position()];
+                            *v_dst = yuy2[yuy2_target.get_v_position()];
+                        }
+                    }
+                }
+            };
+
         let iter;
         #[cfg(feature = "rayon")]
         {
@@ -207,50 +254,19 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 );
         }
         iter.for_each(|(((y_dst, u_dst), v_dst), yuy2_src)| {
-            for (y, (y_dst, yuy2)) in y_dst
-                .chunks_exact_mut(y_stride as usize)
-                .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
-                .enumerate()
-            {
-                let yuy2 = &yuy2[0..yuy2_width];
-                let y_dst = &mut y_dst[0..planar_image.width as usize];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-
-                let process_chroma = y & 1 == 0;
-
-                for (((y_dst, u_dst), v_dst), yuy2) in y_dst
-                    .chunks_exact_mut(2)
-                    .zip(u_dst.iter_mut())
-                    .zip(v_dst.iter_mut())
-                    .zip(yuy2.chunks_exact(4))
-                {
-                    let first_y_position = yuy2[yuy2_target.get_first_y_position()];
-                    let second_y_position = yuy2[yuy2_target.get_second_y_position()];
-                    y_dst[0] = first_y_position;
-                    y_dst[1] = second_y_position;
-                    if process_chroma {
-                        let u_value = yuy2[yuy2_target.get_u_position()];
-                        let v_value = yuy2[yuy2_target.get_v_position()];
-                        *u_dst = u_value;
-                        *v_dst = v_value;
-                    }
-                }
-
-                if width & 1 != 0 {
-                    let y_dst = y_dst.last_mut().unwrap();
-                    let yuy2 = yuy2_src.chunks_exact(4).last().unwrap();
-                    let yuy2 = &yuy2[0..4];
-                    *y_dst = yuy2[yuy2_target.get_first_y_position()];
-                    if process_chroma {
-                        let u_dst = u_dst.last_mut().unwrap();
-                        let v_dst = v_dst.last_mut().unwrap();
-                        *u_dst = yuy2[yuy2_target.get_u_position()];
-                        *v_dst = yuy2[yuy2_target.get_v_position()];
-                    }
-                }
-            }
+            process_rows(y_dst, u_dst, v_dst, yuy2_src);
         });
+
+        if planar_image.height & 1 != 0 {
+            let last_row = planar_image.height as usize - 1;
+            let last_chroma_row = last_row / 2;
+            process_rows(
+                &mut y_plane[last_row * y_stride as usize..],
+                &mut u_plane[last_chroma_row * u_stride as usize..],
+                &mut v_plane[last_chroma_row * v_stride as usize..],
+                &packed_image.yuy[last_row * packed_image.yuy_stride as usize..],
+            );
+        }
     }
 
     Ok(())
-- 
2.43.0


From 96312f491ca219b4c77cf08b586dc1fb7f1a1653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 29/45] fix: YUY2 -> 4:2:0 takes the chroma of the first row of
 each pair in the SIMD path too

---
 src/yuy2_to_yuv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yuy2_to_yuv.rs b/src/yuy2_to_yuv.rs
index ffaf1b0..dc08e24 100644
--- a/src/yuy2_to_yuv.rs
+++ b/src/yuy2_to_yuv.rs
@@ -249,6 +249,8 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                     .chunks_exact_mut(y_stride as usize)
                     .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
                     .enumerate()
+                // SIMD rows always store chroma, so the row that owns it goes last
+                .rev()
                 {
                     let yuy2 = &yuy2[0..yuy2_width];
                     let y_dst = &mut y_dst[0..planar_image.width as usize];
-- 
2.43.0


From 9bcd934ed2296db3aec7d7567a466eb49c9a4293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 30/45] fix: SSE/AVX2 YUV 4:4:4 -> YUY2 chroma averaging

---
 src/avx2/avx2_utils.rs | 2 +-
 src/sse/yuv_to_yuy2.rs | 9 ++-------
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/avx2/avx2_utils.rs b/src/avx2/avx2_utils.rs
index d76547e..9dd8234 100644
--- a/src/avx2/avx2_utils.rs
+++ b/src/avx2/avx2_utils.rs
@@ -476,7 +476,7 @@ pub(crate) unsafe fn _mm256_havg_epu8(a: __m256i, b: __m256i) -> __m256i {
     let lo = _mm256_srli_epi16::<1>(_mm256_add_epi16(sums_lo, ones_16));
     let sums_hi = _mm256_maddubs_epi16(b, ones);
     let hi = _mm256_srli_epi16::<1>(_mm256_add_epi16(sums_hi, ones_16));
-    avx_pairwise_avg_epi16(lo, hi)
+    _mm256_permute4x64_epi64::<0xD8>(_mm256_packus_epi16(lo, hi))
 }
 
 #[inline(always)]
diff --git a/src/sse/yuv_to_yuy2.rs b/src/sse/yuv_to_yuy2.rs
index bca03a6..3c0ad86 100644
--- a/src/sse/yuv_to_yuy2.rs
+++ b/src/sse/yuv_to_yuy2.rs
@@ -142,14 +142,9 @@ unsafe fn yuv_to_yuy2_sse_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 let full_u = _mm_loadu_si128(u_plane.as_ptr().add(u_pos) as *const __m128i);
                 let full_v = _mm_loadu_si128(v_plane.as_ptr().add(v_pos) as *const __m128i);
 
-                let low_u = _mm_getlow_epi8(full_u);
-                let high_u = _mm_gethigh_epi8(full_u);
-                u_pixels = _mm_havg_epu8(low_u, high_u);
+                u_pixels = _mm_havg_epu8(full_u, _mm_setzero_si128());
 
-                let low_v = _mm_getlow_epi8(full_v);
-                let high_v = _mm_gethigh_epi8(full_v);
-
-                v_pixels = _mm_havg_epu8(low_v, high_v);
+                v_pixels = _mm_havg_epu8(full_v, _mm_setzero_si128());
             } else {
                 u_pixels = _mm_loadu_si64(u_plane.as_ptr().add(u_pos));
                 v_pixels = _mm_loadu_si64(v_plane.as_ptr().add(v_pos));
-- 
2.43.0


From 02dc04e69401a25555a35c35738c913926ba6e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 31/45] fix: GBR 16-bit -> f16 overflowed to infinity

---
 src/from_identity_alpha_f16.rs | 43 ++++++++++++++++------------------
 src/from_identity_f16.rs       | 39 ++++++++++++++----------------
 src/yuy2_to_yuv.rs             |  4 ++--
 3 files changed, 40 insertions(+), 46 deletions(-)

diff --git a/src/from_identity_alpha_f16.rs b/src/from_identity_alpha_f16.rs
index 3e31081..06bf997 100644
--- a/src/from_identity_alpha_f16.rs
+++ b/src/from_identity_alpha_f16.rs
@@ -53,16 +53,13 @@ trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default +
 }
 
 trait CastableToF16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16;
+    /// Goes through f32: 16 bit values do not fit f16, nor does 1/65535 fit it precisely
+    fn scale_to_f16(self, scale: f32) -> f16;
 }
 
 impl CastableToF16 for u16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16 {
-        if BIT_DEPTH == 16 {
-            (self as i32) as f16
-        } else {
-            (self as i16) as f16
-        }
+    fn scale_to_f16(self, scale: f32) -> f16 {
+        (self as f32 * scale) as f16
     }
 }
 
@@ -87,7 +84,7 @@ macro_rules! exec_cv_full {
     ($dst: expr, $y_src: expr, $u_src: expr, $v_src: expr, $a_src: expr, $cn: expr, $bit_depth: expr) => {
         let max_value = (1 << $bit_depth) - 1;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for ((((&y_src, &u_src), &v_src), rgb_dst), a_src) in $y_src
             .iter()
@@ -96,10 +93,10 @@ macro_rules! exec_cv_full {
             .zip(rgb_chunks)
             .zip($a_src)
         {
-            rgb_dst[$cn.get_r_channel_offset()] = v_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_g_channel_offset()] = y_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_b_channel_offset()] = u_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_a_channel_offset()] = a_src.cast_to_f16::<$bit_depth>() * scale;
+            rgb_dst[$cn.get_r_channel_offset()] = v_src.scale_to_f16(scale);
+            rgb_dst[$cn.get_g_channel_offset()] = y_src.scale_to_f16(scale);
+            rgb_dst[$cn.get_b_channel_offset()] = u_src.scale_to_f16(scale);
+            rgb_dst[$cn.get_a_channel_offset()] = a_src.scale_to_f16(scale);
         }
     };
 }
@@ -108,7 +105,7 @@ macro_rules! exec_cv_limited {
     ($dst: expr, $y_src: expr, $u_src: expr, $v_src: expr, $a_src: expr, $cn: expr, $bit_depth: expr, $y_bias: expr, $y_coef: expr, $precision: expr) => {
         let max_value = (1 << $bit_depth) - 1;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for ((((&y_src, &u_src), &v_src), rgb_dst), a_src) in $y_src
             .iter()
@@ -118,18 +115,18 @@ macro_rules! exec_cv_limited {
             .zip($a_src)
         {
             rgb_dst[$cn.get_r_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_g_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_b_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
-            rgb_dst[$cn.get_a_channel_offset()] = a_src.cast_to_f16::<$bit_depth>() * scale;
+                (qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
+            rgb_dst[$cn.get_a_channel_offset()] = a_src.scale_to_f16(scale);
         }
     };
 }
diff --git a/src/from_identity_f16.rs b/src/from_identity_f16.rs
index f8febd1..05b4dc1 100644
--- a/src/from_identity_f16.rs
+++ b/src/from_identity_f16.rs
@@ -46,16 +46,13 @@ trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default +
 }
 
 trait CastableToF16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16;
+    /// Goes through f32: 16 bit values do not fit f16, nor does 1/65535 fit it precisely
+    fn scale_to_f16(self, scale: f32) -> f16;
 }
 
 impl CastableToF16 for u16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16 {
-        if BIT_DEPTH == 16 {
-            (self as i32) as f16
-        } else {
-            (self as i16) as f16
-        }
+    fn scale_to_f16(self, scale: f32) -> f16 {
+        (self as f32 * scale) as f16
     }
 }
 
@@ -80,14 +77,14 @@ macro_rules! exec_cv_full {
         let max_value = (1 << $bit_depth) - 1;
         let max_value_f16 = 1f32 as f16;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for (((&y_src, &u_src), &v_src), rgb_dst) in
             $y_src.iter().zip($u_src).zip($v_src).zip(rgb_chunks)
         {
-            rgb_dst[$cn.get_r_channel_offset()] = v_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_g_channel_offset()] = y_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_b_channel_offset()] = u_src.cast_to_f16::<$bit_depth>() * scale;
+            rgb_dst[$cn.get_r_channel_offset()] = v_src.scale_to_f16(scale);
+            rgb_dst[$cn.get_g_channel_offset()] = y_src.scale_to_f16(scale);
+            rgb_dst[$cn.get_b_channel_offset()] = u_src.scale_to_f16(scale);
             if $cn.has_alpha() {
                 rgb_dst[$cn.get_a_channel_offset()] = max_value_f16;
             }
@@ -100,23 +97,23 @@ macro_rules! exec_cv_limited {
         let max_value = (1 << $bit_depth) - 1;
         let max_value_f16 = 1f32 as f16;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for (((&y_src, &u_src), &v_src), rgb_dst) in
             $y_src.iter().zip($u_src).zip($v_src).zip(rgb_chunks)
         {
             rgb_dst[$cn.get_r_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_g_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_b_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             if $cn.has_alpha() {
                 rgb_dst[$cn.get_a_channel_offset()] = max_value_f16;
             }
diff --git a/src/yuy2_to_yuv.rs b/src/yuy2_to_yuv.rs
index dc08e24..3112c3e 100644
--- a/src/yuy2_to_yuv.rs
+++ b/src/yuy2_to_yuv.rs
@@ -249,8 +249,8 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                     .chunks_exact_mut(y_stride as usize)
                     .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
                     .enumerate()
-                // SIMD rows always store chroma, so the row that owns it goes last
-                .rev()
+                    // SIMD rows always store chroma, so the row that owns it goes last
+                    .rev()
                 {
                     let yuy2 = &yuy2[0..yuy2_width];
                     let y_dst = &mut y_dst[0..planar_image.width as usize];
-- 
2.43.0


From fd1cc964d745d8417fe759c8e1458fb1683032a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 32/45] fix: remove the AVX2 averaging helper the previous fix
 left unused

---
 src/avx2/avx2_utils.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/avx2/avx2_utils.rs b/src/avx2/avx2_utils.rs
index 9dd8234..9d4cc71 100644
--- a/src/avx2/avx2_utils.rs
+++ b/src/avx2/avx2_utils.rs
@@ -336,12 +336,6 @@ pub(crate) unsafe fn avx2_deinterleave_rgb(
 //     _mm256_permute4x64_epi64::<MASK>(v)
 // }
 
-#[inline(always)]
-pub(crate) unsafe fn avx_pairwise_avg_epi16(a: __m256i, b: __m256i) -> __m256i {
-    let sums = _mm256_hadd_epi16(a, b);
-    _mm256_srli_epi16::<1>(_mm256_add_epi16(sums, _mm256_set1_epi16(1)))
-}
-
 #[inline(always)]
 pub(crate) unsafe fn avx_pairwise_avg_epi16_epi8_j(a: __m256i, f: i8) -> __m256i {
     _mm256_maddubs_epi16(a, _mm256_set1_epi8(f))
-- 
2.43.0


From a4e694eeeff26ee1c3a0f45e48d5a3c5af39121d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:56 +0000
Subject: [PATCH 33/45] fix: 12/14-bit YUV -> AR30/RA30 did not reduce the
 components to 10 bits

---
 src/yuv_nv_p10_to_ar30.rs | 25 +++++++++++++------------
 src/yuv_p16_ar30.rs       | 37 ++++++++++++++++++-------------------
 2 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/src/yuv_nv_p10_to_ar30.rs b/src/yuv_nv_p10_to_ar30.rs
index eb4e8dc..480ccf3 100644
--- a/src/yuv_nv_p10_to_ar30.rs
+++ b/src/yuv_nv_p10_to_ar30.rs
@@ -171,6 +171,7 @@ fn yuv_nv_p10_to_image_impl_d<
 ) -> Result<(), YuvError> {
     let ar30_layout: Rgb30 = AR30_LAYOUT.into();
     const CN: usize = 4;
+    const AR30_DEPTH: usize = 10;
     let uv_order: YuvNVOrder = NV_ORDER.into();
     let chroma_subsampling: YuvChromaSubsampling = SAMPLING.into();
 
@@ -224,9 +225,9 @@ fn yuv_nv_p10_to_image_impl_d<
                 cb_value -= bias_uv;
                 cr_value -= bias_uv;
 
-                let r_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-                let b_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-                let g_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                let r_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cr_coef * cr_value);
+                let b_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cb_coef * cb_value);
+                let g_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(
                     y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -242,9 +243,9 @@ fn yuv_nv_p10_to_image_impl_d<
 
                 let y_value1: i32 = (y_vl1 - bias_y) * y_coef;
 
-                let r_p1 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value1 + cr_coef * cr_value);
-                let b_p1 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value1 + cb_coef * cb_value);
-                let g_p1 = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                let r_p1 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value1 + cr_coef * cr_value);
+                let b_p1 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value1 + cb_coef * cb_value);
+                let g_p1 = qrshr::<BACK_SHIFT, AR30_DEPTH>(
                     y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -277,9 +278,9 @@ fn yuv_nv_p10_to_image_impl_d<
                 cb_value -= bias_uv;
                 cr_value -= bias_uv;
 
-                let r_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-                let b_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-                let g_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                let r_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cr_coef * cr_value);
+                let b_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cb_coef * cb_value);
+                let g_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(
                     y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -347,9 +348,9 @@ fn yuv_nv_p10_to_image_impl_d<
                     cb_value -= bias_uv;
                     cr_value -= bias_uv;
 
-                    let r_p = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value + cr_coef * cr_value);
-                    let b_p = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value + cb_coef * cb_value);
-                    let g_p = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                    let r_p = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value + cr_coef * cr_value);
+                    let b_p = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value + cb_coef * cb_value);
+                    let g_p = qrshr::<BACK_SHIFT, AR30_DEPTH>(
                         y_value - g_coef_1 * cr_value - g_coef_2 * cb_value,
                     );
 
diff --git a/src/yuv_p16_ar30.rs b/src/yuv_p16_ar30.rs
index f30c8d6..2fd5b6c 100644
--- a/src/yuv_p16_ar30.rs
+++ b/src/yuv_p16_ar30.rs
@@ -26,7 +26,7 @@
  * OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
-use crate::numerics::{qrshr, to_ne};
+use crate::numerics::to_ne;
 use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::{
     get_yuv_range, search_inverse_transform, Rgb30, YuvBytesPacking, YuvChromaSubsampling,
@@ -82,6 +82,11 @@ fn yuv_p16_to_image_ar30<
 
     let msb_shift = (16 - BIT_DEPTH) as i32;
 
+    // The transform yields BIT_DEPTH components, the packed pixel holds 10 bits of each
+    let back_shift = PRECISION + (BIT_DEPTH - AR30_DEPTH) as i32;
+    let rounding = (1 << (back_shift - 1)) - 1;
+    let descale = |v: i32| ((v + rounding) >> back_shift).clamp(0, (1 << AR30_DEPTH) - 1);
+
     let process_halved_chroma_row = |y_plane: &[u16],
                                      u_plane: &[u16],
                                      v_plane: &[u16],
@@ -97,11 +102,9 @@ fn yuv_p16_to_image_ar30<
             let cb_value = to_ne::<ENDIANNESS, BYTES_POSITION>(u_src, msb_shift) as i32 - bias_uv;
             let cr_value = to_ne::<ENDIANNESS, BYTES_POSITION>(v_src, msb_shift) as i32 - bias_uv;
 
-            let r0 = qrshr::<PRECISION, AR30_DEPTH>(y_value0 + cr_coef * cr_value);
-            let b0 = qrshr::<PRECISION, AR30_DEPTH>(y_value0 + cb_coef * cb_value);
-            let g0 = qrshr::<PRECISION, AR30_DEPTH>(
-                y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
-            );
+            let r0 = descale(y_value0 + cr_coef * cr_value);
+            let b0 = descale(y_value0 + cb_coef * cb_value);
+            let g0 = descale(y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value);
 
             let rgba_2 = &mut rgba[0..8];
 
@@ -114,10 +117,9 @@ fn yuv_p16_to_image_ar30<
             let y_value1 =
                 (to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[1], msb_shift) as i32 - bias_y) * y_coef;
 
-            let r1 = qrshr::<PRECISION, BIT_DEPTH>(y_value1 + cr_coef * cr_value);
-            let b1 = qrshr::<PRECISION, BIT_DEPTH>(y_value1 + cb_coef * cb_value);
-            let g1 =
-                qrshr::<PRECISION, BIT_DEPTH>(y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value);
+            let r1 = descale(y_value1 + cr_coef * cr_value);
+            let b1 = descale(y_value1 + cb_coef * cb_value);
+            let g1 = descale(y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value);
 
             let pixel1 = ar30_layout.pack::<AR30_STORE>(r1, g1, b1).to_ne_bytes();
             rgba_2[4] = pixel1[0];
@@ -139,10 +141,9 @@ fn yuv_p16_to_image_ar30<
                 - bias_uv;
             let rgba = rgba.chunks_exact_mut(4).last().unwrap();
 
-            let r0 = qrshr::<PRECISION, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-            let b0 = qrshr::<PRECISION, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-            let g0 =
-                qrshr::<PRECISION, BIT_DEPTH>(y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value);
+            let r0 = descale(y_value0 + cr_coef * cr_value);
+            let b0 = descale(y_value0 + cb_coef * cb_value);
+            let g0 = descale(y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value);
             let pixel0 = ar30_layout.pack::<AR30_STORE>(r0, g0, b0).to_ne_bytes();
             rgba[0] = pixel0[0];
             rgba[1] = pixel0[1];
@@ -184,11 +185,9 @@ fn yuv_p16_to_image_ar30<
                 let cr_value =
                     to_ne::<ENDIANNESS, BYTES_POSITION>(v_src, msb_shift) as i32 - bias_uv;
 
-                let r = qrshr::<PRECISION, BIT_DEPTH>(y_value + cr_coef * cr_value);
-                let b = qrshr::<PRECISION, BIT_DEPTH>(y_value + cb_coef * cb_value);
-                let g = qrshr::<PRECISION, BIT_DEPTH>(
-                    y_value - g_coef_1 * cr_value - g_coef_2 * cb_value,
-                );
+                let r = descale(y_value + cr_coef * cr_value);
+                let b = descale(y_value + cb_coef * cb_value);
+                let g = descale(y_value - g_coef_1 * cr_value - g_coef_2 * cb_value);
 
                 let pixel0 = ar30_layout.pack::<AR30_STORE>(r, g, b).to_ne_bytes();
                 rgba[0] = pixel0[0];
-- 
2.43.0


From 6f803294eb3d1d8fba9918403acaad5b4cfb967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:10 +0000
Subject: [PATCH 34/45] fix: big-endian 4:2:2 YUVA -> RGBA16 read its planes as
 little-endian

---
 src/yuv_p16_rgba16_alpha.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yuv_p16_rgba16_alpha.rs b/src/yuv_p16_rgba16_alpha.rs
index 936bfaf..29dee22 100644
--- a/src/yuv_p16_rgba16_alpha.rs
+++ b/src/yuv_p16_rgba16_alpha.rs
@@ -521,7 +521,7 @@ d_cnv!(
     i210_alpha_be_to_rgba10,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I210ABE",
     "RGBA",
     "rgba",
@@ -607,7 +607,7 @@ d_cnv!(
     i212_be_alpha_to_rgba12,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I212ABE",
     "RGBA",
     "rgba",
@@ -628,7 +628,7 @@ d_cnv!(
     i214_be_alpha_to_rgba14,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I214ABE",
     "RGBA",
     "rgba",
-- 
2.43.0


From 22c36565123f77141323d56f489cd5be6ad8e8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 35/45] fix: P216 encoders wrote 4:2:0 chroma

---
 src/rgb_to_nv_p16.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rgb_to_nv_p16.rs b/src/rgb_to_nv_p16.rs
index e384a72..2f94837 100644
--- a/src/rgb_to_nv_p16.rs
+++ b/src/rgb_to_nv_p16.rs
@@ -670,7 +670,7 @@ d_cnv!(
 d_cnv!(
     rgba16_to_p216,
     YuvSourceChannels::Rgba,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "P216",
     "RGBA",
     16,
@@ -679,7 +679,7 @@ d_cnv!(
 d_cnv!(
     rgb16_to_p216,
     YuvSourceChannels::Rgb,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "P216",
     "RGB",
     16,
-- 
2.43.0


From 6144fe0d04074cee3b90161312e1ee323ca7a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 36/45] fix: RGB16 -> 4:2:2 planar rows are trimmed to the
 image width before the odd last column is handled

---
 src/rgb16_to_yuv_p16.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index 84fc534..ebd9bf8 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -852,7 +852,12 @@ fn rgbx_to_yuv_ant<
         }
 
         iter.for_each(|(((y_plane, u_plane), v_plane), rgba)| {
-            process_halved_chroma_row(y_plane, u_plane, v_plane, rgba);
+            process_halved_chroma_row(
+                &mut y_plane[..image.width as usize],
+                &mut u_plane[..(image.width as usize).div_ceil(2)],
+                &mut v_plane[..(image.width as usize).div_ceil(2)],
+                &rgba[..image.width as usize * channels],
+            );
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
         let iter;
-- 
2.43.0


From c5325411761bfeaf00a155563c2aef532932f044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 37/45] fix: 4:2:2 YUVA p16 -> RGBA8 rows are trimmed to the
 image width before the odd last column is handled

---
 src/yuv_p16_rgba_alpha.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/yuv_p16_rgba_alpha.rs b/src/yuv_p16_rgba_alpha.rs
index dc8ac61..4fe4290 100644
--- a/src/yuv_p16_rgba_alpha.rs
+++ b/src/yuv_p16_rgba_alpha.rs
@@ -344,7 +344,13 @@ fn yuv_p16_to_image_alpha_ant<
                 .zip(image.v_plane.chunks_exact(image.v_stride as usize));
         }
         iter.for_each(|((((rgba, y_plane), a_plane), u_plane), v_plane)| {
-            process_halved_chroma_row(y_plane, u_plane, v_plane, a_plane, rgba);
+            process_halved_chroma_row(
+                &y_plane[..image.width as usize],
+                &u_plane[..(image.width as usize).div_ceil(2)],
+                &v_plane[..(image.width as usize).div_ceil(2)],
+                &a_plane[..image.width as usize],
+                &mut rgba[..image.width as usize * channels],
+            );
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
         let iter;
-- 
2.43.0


From 473b5a0971c6abdcb8e82dbcdd6761607b3e0dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 38/45] fix: 4:4:4 YUV -> AR30/RA30 decoded the row padding

---
 src/yuv_p16_ar30.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yuv_p16_ar30.rs b/src/yuv_p16_ar30.rs
index 2fd5b6c..ff57eca 100644
--- a/src/yuv_p16_ar30.rs
+++ b/src/yuv_p16_ar30.rs
@@ -171,7 +171,7 @@ fn yuv_p16_to_image_ar30<
                 .zip(image.v_plane.chunks_exact(image.v_stride as usize));
         }
         iter.for_each(|(((rgba, y_plane), u_plane), v_plane)| {
-            for (((rgba, &y_src), &u_src), &v_src) in rgba
+            for (((rgba, &y_src), &u_src), &v_src) in rgba[..image.width as usize * 4]
                 .chunks_exact_mut(4)
                 .zip(y_plane.iter())
                 .zip(u_plane.iter())
-- 
2.43.0


From 3833439a30d4f5184d08e8c7b90dd385a7486219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:46 +0000
Subject: [PATCH 39/45] fix: YUV 4:2:0 -> YUY2 odd last row handed untrimmed
 slices to the SIMD row

---
 src/yuv_to_yuy2.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/yuv_to_yuy2.rs b/src/yuv_to_yuy2.rs
index cda8390..b53cd2a 100644
--- a/src/yuv_to_yuy2.rs
+++ b/src/yuv_to_yuy2.rs
@@ -462,6 +462,11 @@ pub(crate) fn yuv_to_yuy2_impl<
                 .last()
                 .unwrap();
 
+            let rem_yuy = &mut rem_yuy[0..yuy2_width];
+            let rem_y = &rem_y[0..image.width as usize];
+            let last_u = &last_u[0..(image.width as usize).div_ceil(2)];
+            let last_v = &last_v[0..(image.width as usize).div_ceil(2)];
+
             let processed = V::process_wide_row::<SAMPLING, YUY2_TARGET>(
                 rem_yuy,
                 rem_y,
@@ -470,11 +475,6 @@ pub(crate) fn yuv_to_yuy2_impl<
                 width as usize,
             );
 
-            let rem_yuy = &mut rem_yuy[0..yuy2_width];
-            let rem_y = &rem_y[0..image.width as usize];
-            let last_u = &last_u[0..(image.width as usize).div_ceil(2)];
-            let last_v = &last_v[0..(image.width as usize).div_ceil(2)];
-
             for (((yuy2, y_src), u_src), v_src) in rem_yuy
                 .chunks_exact_mut(4)
                 .zip(rem_y.chunks_exact(2))
-- 
2.43.0


From 1b2cb80961cdb2751e185e29d20ff0c4bafe17b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:46 +0000
Subject: [PATCH 40/45] fix: packed YUV 4:2:2 images were accepted whatever
 their stride

---
 src/yuv_error.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/yuv_error.rs b/src/yuv_error.rs
index 0f9be9e..f9651d0 100644
--- a/src/yuv_error.rs
+++ b/src/yuv_error.rs
@@ -156,13 +156,14 @@ pub(crate) fn check_yuv_packed422<V>(
         return Err(YuvError::ZeroBaseSize);
     }
     check_overflow_v2(stride as usize, height as usize)?;
-    check_overflow_v2(width as usize, height as usize)?;
-    let full_size = if width % 2 == 0 {
-        2 * width as usize * height as usize
+    let row_size = if width % 2 == 0 {
+        2 * width as usize
     } else {
-        2 * (width as usize + 1) * height as usize
+        2 * (width as usize + 1)
     };
-    if data.len() != full_size {
+    check_overflow_v2(row_size, height as usize)?;
+    let full_size = row_size * height as usize;
+    if data.len() != full_size || stride as usize * height as usize != full_size {
         return Err(YuvError::PackedFrameSizeMismatch(MismatchedSize {
             expected: stride as usize * height as usize,
             received: data.len(),
-- 
2.43.0


From 054a149eb66127f7242c7a6cd7c150e1a773993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:02 +0000
Subject: [PATCH 41/45] fix: high bit-depth gray -> RGB did not validate its
 arguments

---
 src/y_p16_to_rgb16.rs            | 5 +++++
 src/y_p16_with_alpha_to_rgb16.rs | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/y_p16_to_rgb16.rs b/src/y_p16_to_rgb16.rs
index c017ceb..7e720ea 100644
--- a/src/y_p16_to_rgb16.rs
+++ b/src/y_p16_to_rgb16.rs
@@ -28,6 +28,7 @@
  */
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 use crate::neon::neon_y_p16_to_rgba16_row;
+use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::*;
 use crate::{YuvError, YuvGrayImage};
 use num_traits::AsPrimitive;
@@ -141,6 +142,10 @@ where
     let max_colors = (1 << bit_depth) - 1;
 
     let channels = cn.get_channels_count();
+
+    check_rgba_destination(rgba16, rgba_stride, image.width, image.height, channels)?;
+    image.check_constraints()?;
+
     let chroma_range = get_yuv_range(bit_depth, range);
     let kr_kb = matrix.get_kr_kb();
 
diff --git a/src/y_p16_with_alpha_to_rgb16.rs b/src/y_p16_with_alpha_to_rgb16.rs
index fa62d3b..3c0ced0 100644
--- a/src/y_p16_with_alpha_to_rgb16.rs
+++ b/src/y_p16_with_alpha_to_rgb16.rs
@@ -26,6 +26,7 @@
  * OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
+use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::*;
 use crate::{YuvError, YuvGrayAlphaImage};
 use num_traits::AsPrimitive;
@@ -58,6 +59,7 @@ where
 
     let channels = cn.get_channels_count();
 
+    check_rgba_destination(rgba16, rgba_stride, image.width, image.height, channels)?;
     image.check_constraints()?;
 
     assert!(
-- 
2.43.0


From a7c130d54b16baabdc4522154f80442441eb0b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:19 +0000
Subject: [PATCH 42/45] fix: interleaved chroma check no longer wraps for
 widths of 2^31 and more

2*width was computed in u32, so a 4:4:4 bi-planar image 2^31 pixels wide
passed validation with an empty chroma plane.
---
 src/yuv_error.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/yuv_error.rs b/src/yuv_error.rs
index f9651d0..9e11ebb 100644
--- a/src/yuv_error.rs
+++ b/src/yuv_error.rs
@@ -249,25 +249,27 @@ pub(crate) fn check_interleaved_chroma_channel<V>(
         return Err(YuvError::ZeroBaseSize);
     }
     let chroma_min_width = match sampling {
-        YuvChromaSubsampling::Yuv420 | YuvChromaSubsampling::Yuv422 => image_width.div_ceil(2) * 2,
-        YuvChromaSubsampling::Yuv444 => image_width * 2,
+        YuvChromaSubsampling::Yuv420 | YuvChromaSubsampling::Yuv422 => {
+            (image_width as usize).div_ceil(2) * 2
+        }
+        YuvChromaSubsampling::Yuv444 => image_width as usize * 2,
     };
     let chroma_height = match sampling {
         YuvChromaSubsampling::Yuv420 => image_height.div_ceil(2),
         YuvChromaSubsampling::Yuv422 | YuvChromaSubsampling::Yuv444 => image_height,
     };
     check_overflow_v2(stride as usize, chroma_height as usize)?;
-    check_overflow_v2(chroma_min_width as usize, chroma_height as usize)?;
+    check_overflow_v2(chroma_min_width, chroma_height as usize)?;
     if (stride as usize * chroma_height as usize)
-        < (chroma_min_width as usize * chroma_height as usize)
+        < (chroma_min_width * chroma_height as usize)
     {
         return Err(YuvError::ChromaPlaneMinimumSizeMismatch(MismatchedSize {
-            expected: chroma_min_width as usize * chroma_height as usize,
+            expected: chroma_min_width * chroma_height as usize,
             received: stride as usize * chroma_height as usize,
         }));
     }
     if stride as usize * chroma_height as usize != data.len()
-        || chroma_min_width as usize * chroma_height as usize != data.len()
+        || chroma_min_width * chroma_height as usize != data.len()
     {
         return Err(YuvError::ChromaPlaneSizeMismatch(MismatchedSize {
             expected: stride as usize * chroma_height as usize,
-- 
2.43.0


From 159e487a3815afb34b8f3bc2c12a9c9f29c54ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:03 +0000
Subject: [PATCH 43/45] fix: limited-range RGB -> YCgCo 4:4:4 chroma, and the
 odd last 4:2:2 column, use the chroma range

---
 src/rgb_to_ycgco.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rgb_to_ycgco.rs b/src/rgb_to_ycgco.rs
index 6a25409..155d186 100644
--- a/src/rgb_to_ycgco.rs
+++ b/src/rgb_to_ycgco.rs
@@ -124,7 +124,7 @@ fn rgbx_to_ycgco<const ORIGIN_CHANNELS: u8, const SAMPLING: u8>(
 
                 *y_last = y_0 as u8;
 
-                r0 *= range_reduction_y as i32;
+                r0 *= range_reduction_uv as i32;
                 g0 *= range_reduction_uv as i32;
                 b0 *= range_reduction_uv as i32;
 
@@ -291,9 +291,9 @@ fn rgbx_to_ycgco<const ORIGIN_CHANNELS: u8, const SAMPLING: u8>(
                     >> PRECISION;
                 *y_dst = y_0 as u8;
 
-                r0 *= range_reduction_y as i32;
-                g0 *= range_reduction_y as i32;
-                b0 *= range_reduction_y as i32;
+                r0 *= range_reduction_uv as i32;
+                g0 *= range_reduction_uv as i32;
+                b0 *= range_reduction_uv as i32;
 
                 let cg = (((g0 >> 1) - ((r0 + b0) >> 2)) + bias_uv) >> PRECISION;
                 let co = (((r0 - b0) >> 1) + bias_uv) >> PRECISION;
-- 
2.43.0


From 1e04b9db77a41d2d81a8fe404f381bb96cce55fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 44/45] fix: stride and packed 4:2:2 row size checks no longer
 overflow on 32-bit targets

---
 src/yuv_error.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/yuv_error.rs b/src/yuv_error.rs
index 9e11ebb..5f4afca 100644
--- a/src/yuv_error.rs
+++ b/src/yuv_error.rs
@@ -130,6 +130,7 @@ pub(crate) fn check_rgba_destination<V>(
         return Err(YuvError::ZeroBaseSize);
     }
     check_overflow_v3(width as usize, height as usize, channels)?;
+    check_overflow_v2(rgba_stride as usize, height as usize)?;
     if arr.len() < rgba_stride as usize * (height as usize - 1) + width as usize * channels {
         return Err(YuvError::DestinationSizeMismatch(MismatchedSize {
             expected: rgba_stride as usize * height as usize,
@@ -156,11 +157,8 @@ pub(crate) fn check_yuv_packed422<V>(
         return Err(YuvError::ZeroBaseSize);
     }
     check_overflow_v2(stride as usize, height as usize)?;
-    let row_size = if width % 2 == 0 {
-        2 * width as usize
-    } else {
-        2 * (width as usize + 1)
-    };
+    check_overflow_v2((width as usize).div_ceil(2), 4)?;
+    let row_size = (width as usize).div_ceil(2) * 4;
     check_overflow_v2(row_size, height as usize)?;
     let full_size = row_size * height as usize;
     if data.len() != full_size || stride as usize * height as usize != full_size {
-- 
2.43.0


From a8003a1de557506a943bdfdc1bab6122d111b1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 45/45] fix: wasm NV24/NV42 decoding mixed up the chroma
 samples of the two vector halves

---
 src/wasm32/yuv_nv_to_rgba.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wasm32/yuv_nv_to_rgba.rs b/src/wasm32/yuv_nv_to_rgba.rs
index 786b44d..5cb7642 100644
--- a/src/wasm32/yuv_nv_to_rgba.rs
+++ b/src/wasm32/yuv_nv_to_rgba.rs
@@ -102,8 +102,8 @@ pub(crate) unsafe fn wasm_yuv_nv_to_rgba_row<
                     uv_values = (uv_values.1, uv_values.0);
                 }
                 u_high_u16 = u16x8_extend_high_u8x16(uv_values.0);
-                v_high_u16 = u16x8_extend_high_u8x16(uv_values.0);
-                u_low_u16 = u16x8_extend_low_u8x16(uv_values.1);
+                v_high_u16 = u16x8_extend_high_u8x16(uv_values.1);
+                u_low_u16 = u16x8_extend_low_u8x16(uv_values.0);
                 v_low_u16 = u16x8_extend_low_u8x16(uv_values.1);
             }
         }
-- 
2.43.0

