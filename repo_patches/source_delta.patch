From a6e8aadfc199eafec1091b65182208dbf957feb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 01/38] fix: AVX2 RGB u8 single-row kernel read the last tap
 from the row start

---
 src/avx2/rgb_u8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx2/rgb_u8.rs b/src/avx2/rgb_u8.rs
index bc22d66..e98a658 100644
--- a/src/avx2/rgb_u8.rs
+++ b/src/avx2/rgb_u8.rs
@@ -468,7 +468,7 @@ unsafe fn add_one_weight<const HAS_DOT: bool>(
 ) -> __m128i {
     const COMPONENTS: usize = 3;
     let src_ptr = src.get_unchecked((start_x * COMPONENTS)..).as_ptr();
-    let base_pixel = _mm_loadu_si16(src.as_ptr());
+    let base_pixel = _mm_loadu_si16(src_ptr);
     let m_vl = _mm_insert_epi8::<2>(base_pixel, src_ptr.add(2).read_unaligned() as i32);
     let lo = _mm_unpacklo_epi8(m_vl, _mm_setzero_si128());
     _mm_dot16_avx_epi32::<HAS_DOT>(
-- 
2.43.0


From cdd0754074583e8e409a340573a5263d480aa2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 02/38] fix: SSE f32 plane single-row kernel advanced 8 of 16
 processed taps

---
 src/sse/plane_f32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sse/plane_f32.rs b/src/sse/plane_f32.rs
index 7c83a9a..c80c729 100644
--- a/src/sse/plane_f32.rs
+++ b/src/sse/plane_f32.rs
@@ -186,7 +186,7 @@ unsafe fn convolve_horizontal_plane_sse_row_one_impl<const FMA: bool>(
             let read_weights3 = _mm_loadu_ps(ptr.add(12));
             let weights = (read_weights0, read_weights1, read_weights2, read_weights3);
             store = conv_horiz_plane_16_f32!(bounds_start, src, weights, store, FMA);
-            jx += 8;
+            jx += 16;
         }
 
         while jx + 8 < bounds.size {
-- 
2.43.0


From 0b1f940df52c56eddca1278f585566907728c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 03/38] fix: SSE/AVX2 u16 vertical kernels processed tail
 columns at the previous block's offset

---
 src/avx2/vertical_u16_lb.rs | 8 ++++----
 src/sse/vertical_u16.rs     | 6 +++---
 src/sse/vertical_u16_lb.rs  | 6 +++---
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/avx2/vertical_u16_lb.rs b/src/avx2/vertical_u16_lb.rs
index 6319eb0..a8a94c0 100644
--- a/src/avx2/vertical_u16_lb.rs
+++ b/src/avx2/vertical_u16_lb.rs
@@ -161,7 +161,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
             item1,
         );
 
-        cx = v_dx;
+        cx = v_dx + 32;
     }
 
     let v_px = cx;
@@ -202,7 +202,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
 
         _mm256_storeu_si256(dst.as_mut_ptr() as *mut __m256i, item0);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -240,7 +240,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
             _mm256_castsi256_si128(item),
         );
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -371,7 +371,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
         let u_store0 = _mm_min_epi16(_mm_packus_epi32(v_st, v_st), v_max_colors_sse);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
diff --git a/src/sse/vertical_u16.rs b/src/sse/vertical_u16.rs
index 542a93a..7da26b1 100644
--- a/src/sse/vertical_u16.rs
+++ b/src/sse/vertical_u16.rs
@@ -152,7 +152,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item0);
         _mm_storeu_si128(dst.as_mut_ptr().add(8) as *mut __m128i, item1);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -192,7 +192,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         let item = _mm_packus_epi32(v_st0, v_st1);
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item);
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -335,7 +335,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         let u_store0 = _mm_packus_epi32(v_st, v_st);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
diff --git a/src/sse/vertical_u16_lb.rs b/src/sse/vertical_u16_lb.rs
index 1ee9d9b..40fa5c8 100644
--- a/src/sse/vertical_u16_lb.rs
+++ b/src/sse/vertical_u16_lb.rs
@@ -119,7 +119,7 @@ unsafe fn convolve_column_lb_u16_impl(
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item0);
         _mm_storeu_si128(dst.as_mut_ptr().add(8) as *mut __m128i, item1);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -157,7 +157,7 @@ unsafe fn convolve_column_lb_u16_impl(
         let item = _mm_min_epi16(_mm_packus_epi32(v_st0, v_st1), v_max_colors);
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item);
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -278,7 +278,7 @@ unsafe fn convolve_column_lb_u16_impl(
         let u_store0 = _mm_min_epi16(_mm_packus_epi32(v_st, v_st), v_max_colors);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
-- 
2.43.0


From 739e75fc518d7eaf4877cc62efbdf6aa12001ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 04/38] fix: SSE RGBA u16 single-row kernel applied weights to
 the wrong pixels

---
 src/sse/rgba_u16.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/rgba_u16.rs b/src/sse/rgba_u16.rs
index 78d1574..afc9c38 100644
--- a/src/sse/rgba_u16.rs
+++ b/src/sse/rgba_u16.rs
@@ -70,7 +70,7 @@ unsafe fn conv_horiz_rgba_2_u16<const FMA: bool>(
     );
     _mm_prefer_fma_ps::<FMA>(
         acc,
-        _mm_cvtepi32_ps(_mm_unpacklo_epi16(rgba_pixel, _mm_setzero_si128())),
+        _mm_cvtepi32_ps(_mm_unpackhi_epi16(rgba_pixel, _mm_setzero_si128())),
         w1,
     )
 }
@@ -108,7 +108,7 @@ unsafe fn conv_horiz_rgba_4_u16<const FMA: bool>(
     );
     _mm_prefer_fma_ps::<FMA>(
         acc,
-        _mm_cvtepi32_ps(_mm_unpackhi_epi16(rgba_pixel0, _mm_setzero_si128())),
+        _mm_cvtepi32_ps(_mm_unpacklo_epi16(rgba_pixel0, _mm_setzero_si128())),
         w0,
     )
 }
-- 
2.43.0


From 5e235801a771af63ca91cdd5d66d8c9d9332162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 05/38] fix: Sphinx kernel lost all precision near zero

---
 src/math/sphinx.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/math/sphinx.rs b/src/math/sphinx.rs
index 3fffc40..1802468 100644
--- a/src/math/sphinx.rs
+++ b/src/math/sphinx.rs
@@ -39,5 +39,10 @@ where
         return 1f32.as_();
     }
     let x = x * V::const_pi();
+    if x.abs() < 0.25f32.as_() {
+        // 3(sin(x) - x*cos(x))/x^3 cancels catastrophically around zero, use its Taylor series there
+        let x2 = x * x;
+        return 1f32.as_() - x2 * (0.1f32.as_() - x2 * (1f32 / 280f32).as_());
+    }
     3.0f32.as_() * (x.sin() - x * x.cos()) / (x * x * x)
 }
-- 
2.43.0


From aa073bba8df826b6d43fa3961d8fb561437f1631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 06/38] fix: images with constant alpha were unpremultiplied
 without having been premultiplied

---
 src/scaler.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scaler.rs b/src/scaler.rs
index 1b4d94f..54732c9 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -685,7 +685,7 @@ impl Scaler {
         let mut src_store: std::borrow::Cow<'_, ImageStore<'_, T, N>> =
             std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
@@ -762,7 +762,7 @@ impl Scaler {
         let new_size = into.get_size();
         let mut src_store = std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
@@ -819,7 +819,7 @@ impl Scaler {
         let new_size = into.get_size();
         let mut src_store = std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
-- 
2.43.0


From d5e7188d7bad11009b52c01fcdcd810bb54af78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 07/38] fix: nearest sampling and AR30/RA30 resizing ignored or
 mixed up row strides

---
 src/nearest_sampler.rs | 16 +++++++++++-----
 src/resize_ar30.rs     | 11 ++++++++---
 src/scaler.rs          |  6 ++++++
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/nearest_sampler.rs b/src/nearest_sampler.rs
index 945d5bb..794df60 100644
--- a/src/nearest_sampler.rs
+++ b/src/nearest_sampler.rs
@@ -31,11 +31,14 @@ use rayon::iter::{IndexedParallelIterator, ParallelIterator};
 use rayon::prelude::ParallelSliceMut;
 use rayon::ThreadPool;
 
+#[allow(clippy::too_many_arguments)]
 pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
     src: &[T],
+    src_stride: usize,
     src_width: usize,
     src_height: usize,
     dst: &mut [T],
+    dst_stride: usize,
     dst_width: usize,
     dst_height: usize,
     pool: &Option<ThreadPool>,
@@ -46,15 +49,15 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
     let clip_width = src_width as f32 - 1f32;
     let clip_height = src_height as f32 - 1f32;
 
-    let dst_stride = dst_width * CHANNELS;
-    let src_stride = src_width * CHANNELS;
-
     if let Some(pool) = pool {
         pool.install(|| {
             dst.par_chunks_exact_mut(dst_stride)
                 .enumerate()
                 .for_each(|(y, dst_chunk)| {
-                    for (x, dst) in dst_chunk.chunks_exact_mut(CHANNELS).enumerate() {
+                    for (x, dst) in dst_chunk[..dst_width * CHANNELS]
+                        .chunks_exact_mut(CHANNELS)
+                        .enumerate()
+                    {
                         let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
                             .min(clip_width)
                             .max(0f32) as usize;
@@ -77,7 +80,10 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
         dst.chunks_exact_mut(dst_stride)
             .enumerate()
             .for_each(|(y, dst_chunk)| {
-                for (x, dst) in dst_chunk.chunks_exact_mut(CHANNELS).enumerate() {
+                for (x, dst) in dst_chunk[..dst_width * CHANNELS]
+                    .chunks_exact_mut(CHANNELS)
+                    .enumerate()
+                {
                     let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
                         .min(clip_width)
                         .max(0f32) as usize;
diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index 281abf2..f58c7b0 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -83,8 +83,11 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
     }
 
     if src_size.width == dst_size.width && src_size.height == dst_size.height {
-        for (src, dst) in src.iter().zip(dst.iter_mut()) {
-            *dst = *src;
+        for (src, dst) in src
+            .chunks_exact(src_stride)
+            .zip(dst.chunks_exact_mut(dst_stride))
+        {
+            dst[..dst_size.width * 4].copy_from_slice(&src[..src_size.width * 4]);
         }
         return Ok(());
     }
@@ -97,9 +100,11 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         resize_nearest::<u8, 4>(
             src,
             src_stride,
+            src_size.width,
             src_size.height,
             dst,
             dst_stride,
+            dst_size.width,
             dst_size.height,
             &pool,
         );
@@ -119,7 +124,7 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
             src_stride,
             vertical_filters,
             dst,
-            src_stride,
+            dst_stride,
             &pool,
             src_size.width,
             options,
diff --git a/src/scaler.rs b/src/scaler.rs
index 54732c9..6befafa 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -610,11 +610,14 @@ impl Scaler {
             .get_pool(ImageSize::new(new_size.width, new_size.height));
 
         if self.function == ResamplingFunction::Nearest {
+            let dst_stride = into.stride();
             resize_nearest::<T, N>(
                 store.buffer.as_ref(),
+                store.stride(),
                 store.width,
                 store.height,
                 into.buffer.borrow_mut(),
+                dst_stride,
                 new_size.width,
                 new_size.height,
                 &pool,
@@ -901,11 +904,14 @@ impl Scaler {
             .get_pool(ImageSize::new(new_size.width, new_size.height));
 
         if self.function == ResamplingFunction::Nearest {
+            let dst_stride = into.stride();
             resize_nearest::<T, N>(
                 store.buffer.as_ref(),
+                store.stride(),
                 store.width,
                 store.height,
                 into.buffer.borrow_mut(),
+                dst_stride,
                 new_size.width,
                 new_size.height,
                 &pool,
-- 
2.43.0


From 237feac50608f0541a32571f415843afddf5f891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 08/38] fix: SSE u8 vertical kernel stored 32-column blocks
 without the fixed-point shift

---
 src/sse/vertical_u8.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/sse/vertical_u8.rs b/src/sse/vertical_u8.rs
index 060901e..670512f 100644
--- a/src/sse/vertical_u8.rs
+++ b/src/sse/vertical_u8.rs
@@ -140,15 +140,27 @@ pub(crate) unsafe fn convolve_vertical_part_sse_32(
             dot_prod(store_4, store_5, store_6, store_7, item_row_1, v_weight);
     }
 
-    let rgb0 = _mm_packs_epi32(store_0, store_1);
-    let rgb2 = _mm_packs_epi32(store_2, store_3);
+    let rgb0 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_0),
+        _mm_srai_epi32::<PRECISION>(store_1),
+    );
+    let rgb2 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_2),
+        _mm_srai_epi32::<PRECISION>(store_3),
+    );
     let rgb = _mm_packus_epi16(rgb0, rgb2);
 
     let dst_ptr = dst.get_unchecked_mut(px..);
     _mm_storeu_si128(dst_ptr.as_mut_ptr() as *mut __m128i, rgb);
 
-    let rgb0 = _mm_packs_epi32(store_4, store_5);
-    let rgb2 = _mm_packs_epi32(store_6, store_7);
+    let rgb0 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_4),
+        _mm_srai_epi32::<PRECISION>(store_5),
+    );
+    let rgb2 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_6),
+        _mm_srai_epi32::<PRECISION>(store_7),
+    );
     let rgb = _mm_packus_epi16(rgb0, rgb2);
 
     let dst_ptr = dst.get_unchecked_mut((px + 16)..);
-- 
2.43.0


From 123145e129a4606bfec59d11e27b1bb809474dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 09/38] fix: AR30/RA30 single-row kernels used the wrong
 precision, clamp and tap range

---
 src/fixed_point_horizontal_ar30.rs | 2 +-
 src/sse/horizontal_ar30.rs         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fixed_point_horizontal_ar30.rs b/src/fixed_point_horizontal_ar30.rs
index 8b4b6be..7195955 100644
--- a/src/fixed_point_horizontal_ar30.rs
+++ b/src/fixed_point_horizontal_ar30.rs
@@ -102,7 +102,7 @@ pub(crate) fn convolve_row_handler_fixed_point_ar30<
                 + load_ar30_with_offset!(src_ptr0, AR30_TYPE, AR30_ORDER, 4) * weight4
                 + load_ar30_with_offset!(src_ptr0, AR30_TYPE, AR30_ORDER, 5) * weight5;
         } else {
-            let src_ptr0 = &src[px..(px + bounds_size)];
+            let src_ptr0 = &src[px..(px + bounds_size * CN)];
             for (&k_weight, src) in weights
                 .iter()
                 .zip(src_ptr0.chunks_exact(4))
diff --git a/src/sse/horizontal_ar30.rs b/src/sse/horizontal_ar30.rs
index cb9ef8b..0b3040f 100644
--- a/src/sse/horizontal_ar30.rs
+++ b/src/sse/horizontal_ar30.rs
@@ -334,12 +334,12 @@ unsafe fn sse_convolve_horizontal_rgba_row_impl<const AR_TYPE: usize, const AR_O
     filter_weights: &FilterWeights<i16>,
 ) {
     unsafe {
-        const PRECISION: i32 = 16;
+        const PRECISION: i32 = 15;
         const ROUNDING: i32 = (1 << (PRECISION - 1)) - 1;
 
         let init = _mm_set1_epi32(ROUNDING);
 
-        let v_cut_off = _mm_set1_epi32(1023);
+        let v_cut_off = _mm_set1_epi16(1023);
 
         for ((chunk0, &bounds), weights) in dst
             .chunks_exact_mut(4)
-- 
2.43.0


From 2b0f2b55a70c89af75e180f417913a7a45e06903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 10/38] fix: SSE AR30/RA30 deinterleave returned pixels in the
 wrong order

---
 src/sse/u8_utils.rs | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/src/sse/u8_utils.rs b/src/sse/u8_utils.rs
index c01cfd1..235a3e6 100644
--- a/src/sse/u8_utils.rs
+++ b/src/sse/u8_utils.rs
@@ -284,27 +284,9 @@ pub(crate) unsafe fn _mm_unzips_4_ar30_separate<const AR30_TYPE: usize, const AR
     v: __m128i,
 ) -> (__m128i, __m128i) {
     let values = _mm_unzips_3_ar30::<AR30_TYPE, AR30_ORDER>(v);
-    let a0 = (
-        _mm_unpacklo_epi16(values.0, values.1),
-        _mm_unpackhi_epi16(values.0, values.1),
-    );
-    let a1 = (
-        _mm_unpacklo_epi16(values.2, values.3),
-        _mm_unpackhi_epi16(values.2, values.3),
-    );
-    let v1 = (
-        _mm_unpacklo_epi32(a0.0, a1.0),
-        _mm_unpackhi_epi32(a0.0, a1.0),
-    );
-    let v2 = (
-        _mm_unpacklo_epi32(a0.1, a1.1),
-        _mm_unpackhi_epi32(a0.1, a1.1),
-    );
-    let k0 = v1.0;
-    let k1 = v2.0;
-    let k2 = v1.1;
-    let k3 = v2.1;
-    (_mm_unpacklo_epi64(k0, k1), _mm_unpacklo_epi64(k2, k3))
+    let a0 = _mm_unpacklo_epi16(values.0, values.1);
+    let a1 = _mm_unpacklo_epi16(values.2, values.3);
+    (_mm_unpacklo_epi32(a0, a1), _mm_unpackhi_epi32(a0, a1))
 }
 
 #[inline(always)]
@@ -329,8 +311,8 @@ pub(crate) unsafe fn _mm_unzip_4_ar30_separate<const AR30_TYPE: usize, const AR3
         _mm_unpackhi_epi32(a0.1, a1.1),
     );
     let k0 = v1.0;
-    let k1 = v2.0;
-    let k2 = v1.1;
+    let k1 = v1.1;
+    let k2 = v2.0;
     let k3 = v2.1;
     (k0, k1, k2, k3)
 }
-- 
2.43.0


From 34ccf5f832b30490c0a6d0127f1a8db2726229de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 11/38] fix: u8 premultiply squared the alpha channel and the
 scalar unpremultiply table wrapped

---
 src/alpha_handle_u8.rs | 8 ++++----
 src/avx2/alpha_u8.rs   | 6 +++++-
 src/avx512/alpha_u8.rs | 6 +++++-
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/alpha_handle_u8.rs b/src/alpha_handle_u8.rs
index ada0cc9..053b07d 100644
--- a/src/alpha_handle_u8.rs
+++ b/src/alpha_handle_u8.rs
@@ -52,7 +52,7 @@ pub(crate) fn premultiply_alpha_rgba_row_impl(dst: &mut [u8], src: &[u8]) {
         dst[0] = div_by_255(src[0] as u16 * a);
         dst[1] = div_by_255(src[1] as u16 * a);
         dst[2] = div_by_255(src[2] as u16 * a);
-        dst[3] = div_by_255(a * a);
+        dst[3] = src[3];
     }
 }
 
@@ -89,10 +89,10 @@ const fn make_unpremultiplication_table() -> [u8; 65536] {
         let mut pixel = 0usize;
         while pixel < 256 {
             if alpha == 0 {
-                buf[alpha * 255 + pixel] = 0;
+                buf[alpha * 256 + pixel] = 0;
             } else {
                 let value = (pixel * 255 + alpha / 2) / alpha;
-                buf[alpha * 255 + pixel] = value as u8;
+                buf[alpha * 256 + pixel] = if value > 255 { 255 } else { value as u8 };
             }
             pixel += 1;
         }
@@ -107,7 +107,7 @@ static UNPREMULTIPLICATION_TABLE: [u8; 65536] = make_unpremultiplication_table()
 pub(crate) fn unpremultiply_alpha_rgba_row_impl(in_place: &mut [u8]) {
     for dst in in_place.chunks_exact_mut(4) {
         let a = dst[3];
-        let z = a as u16 * 255;
+        let z = a as u16 * 256;
         dst[0] = UNPREMULTIPLICATION_TABLE[(z + dst[0] as u16) as usize];
         dst[1] = UNPREMULTIPLICATION_TABLE[(z + dst[1] as u16) as usize];
         dst[2] = UNPREMULTIPLICATION_TABLE[(z + dst[2] as u16) as usize];
diff --git a/src/avx2/alpha_u8.rs b/src/avx2/alpha_u8.rs
index fd28c6c..9bf6ba5 100644
--- a/src/avx2/alpha_u8.rs
+++ b/src/avx2/alpha_u8.rs
@@ -68,7 +68,11 @@ impl AssociateAlphaDefault {
         );
         let src_ptr = src.as_ptr();
         let rgba0 = _mm256_loadu_si256(src_ptr as *const __m256i);
-        let multiplicand = _mm256_shuffle_epi8(rgba0, shuffle);
+        // Alpha itself must stay unchanged, so it is multiplied by 255/255
+        let multiplicand = _mm256_or_si256(
+            _mm256_shuffle_epi8(rgba0, shuffle),
+            _mm256_set1_epi32(0xff00_0000u32 as i32),
+        );
 
         let zeros = _mm256_setzero_si256();
 
diff --git a/src/avx512/alpha_u8.rs b/src/avx512/alpha_u8.rs
index a2f15ad..3a01e72 100644
--- a/src/avx512/alpha_u8.rs
+++ b/src/avx512/alpha_u8.rs
@@ -58,7 +58,11 @@ impl AssociateAlphaDefault {
         );
         let src_ptr = src.as_ptr();
         let rgba0 = _mm512_maskz_loadu_epi8(working_mask, src_ptr as *const _);
-        let multiplicand = _mm512_shuffle_epi8(rgba0, shuffle);
+        // Alpha itself must stay unchanged, so it is multiplied by 255/255
+        let multiplicand = _mm512_or_si512(
+            _mm512_shuffle_epi8(rgba0, shuffle),
+            _mm512_set1_epi32(0xff00_0000u32 as i32),
+        );
 
         let zeros = _mm512_setzero_si512();
 
-- 
2.43.0


From 383981153e62e921e6d7d515e3b855e5a05e75da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 12/38] fix: AVX-512 constant-alpha scan skipped the last
 pixels of every row

---
 src/avx512/check_alpha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx512/check_alpha.rs b/src/avx512/check_alpha.rs
index 32cfd53..8aa974a 100644
--- a/src/avx512/check_alpha.rs
+++ b/src/avx512/check_alpha.rs
@@ -65,7 +65,7 @@ unsafe fn avx512_has_non_constant_cap_alpha_rgba8_impl(
         let row = &row[0..width * 4];
         let mut sums = _mm512_set1_epi32(0);
 
-        for chunk in row.chunks_exact(64) {
+        for chunk in row.chunks(64) {
             let working_mask: __mmask64 = if chunk.len() == 64 {
                 0xffff_ffff_ffff_ffff
             } else {
-- 
2.43.0


From 9d51ac9ceed57f77a40323841583ba3eadebe7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 13/38] fix: half-float unpremultiply multiplied by alpha and
 the SSE f16 conversion lost the sign

---
 src/avx2/alpha_f16.rs | 12 ++++++------
 src/sse/alpha_f16.rs  | 12 ++++++------
 src/sse/f16_utils.rs  |  3 ++-
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/avx2/alpha_f16.rs b/src/avx2/alpha_f16.rs
index 9cafee2..85632b6 100644
--- a/src/avx2/alpha_f16.rs
+++ b/src/avx2/alpha_f16.rs
@@ -174,17 +174,17 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
         let zeros = _mm256_setzero_ps();
         let low_alpha_zero_mask = _mm256_cmp_ps::<_CMP_EQ_OS>(low_alpha, zeros);
         let low_r = _mm256_blendv_ps(
-            _mm256_mul_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.0)), low_alpha),
+            _mm256_div_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.0)), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_g = _mm256_blendv_ps(
-            _mm256_mul_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.1)), low_alpha),
+            _mm256_div_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.1)), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_b = _mm256_blendv_ps(
-            _mm256_mul_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.2)), low_alpha),
+            _mm256_div_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.2)), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
@@ -192,7 +192,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
         let high_alpha = _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.3));
         let high_alpha_zero_mask = _mm256_cmp_ps::<_CMP_EQ_OS>(high_alpha, zeros);
         let high_r = _mm256_blendv_ps(
-            _mm256_mul_ps(
+            _mm256_div_ps(
                 _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.0)),
                 high_alpha,
             ),
@@ -200,7 +200,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
             high_alpha_zero_mask,
         );
         let high_g = _mm256_blendv_ps(
-            _mm256_mul_ps(
+            _mm256_div_ps(
                 _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.1)),
                 high_alpha,
             ),
@@ -208,7 +208,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
             high_alpha_zero_mask,
         );
         let high_b = _mm256_blendv_ps(
-            _mm256_mul_ps(
+            _mm256_div_ps(
                 _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.2)),
                 high_alpha,
             ),
diff --git a/src/sse/alpha_f16.rs b/src/sse/alpha_f16.rs
index e0c6195..b0e84c2 100644
--- a/src/sse/alpha_f16.rs
+++ b/src/sse/alpha_f16.rs
@@ -227,17 +227,17 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
         let zeros = _mm_setzero_ps();
         let low_alpha_zero_mask = _mm_cmpeq_ps(low_alpha, zeros);
         let low_r = _mm_blendv_ps(
-            _mm_mul_ps(_mm_cvtph_psx::<F16C>(pixel.0), low_alpha),
+            _mm_div_ps(_mm_cvtph_psx::<F16C>(pixel.0), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_g = _mm_blendv_ps(
-            _mm_mul_ps(_mm_cvtph_psx::<F16C>(pixel.1), low_alpha),
+            _mm_div_ps(_mm_cvtph_psx::<F16C>(pixel.1), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_b = _mm_blendv_ps(
-            _mm_mul_ps(_mm_cvtph_psx::<F16C>(pixel.2), low_alpha),
+            _mm_div_ps(_mm_cvtph_psx::<F16C>(pixel.2), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
@@ -245,7 +245,7 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
         let high_alpha = _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.3));
         let high_alpha_zero_mask = _mm_cmpeq_ps(high_alpha, zeros);
         let high_r = _mm_blendv_ps(
-            _mm_mul_ps(
+            _mm_div_ps(
                 _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.0)),
                 high_alpha,
             ),
@@ -253,7 +253,7 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
             high_alpha_zero_mask,
         );
         let high_g = _mm_blendv_ps(
-            _mm_mul_ps(
+            _mm_div_ps(
                 _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.1)),
                 high_alpha,
             ),
@@ -261,7 +261,7 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
             high_alpha_zero_mask,
         );
         let high_b = _mm_blendv_ps(
-            _mm_mul_ps(
+            _mm_div_ps(
                 _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.2)),
                 high_alpha,
             ),
diff --git a/src/sse/f16_utils.rs b/src/sse/f16_utils.rs
index f0e78e2..a2bf125 100644
--- a/src/sse/f16_utils.rs
+++ b/src/sse/f16_utils.rs
@@ -174,7 +174,8 @@ unsafe fn _mm_cvtps_ph_fallback(x: __m128) -> __m128i {
         ),
         _mm_set1_epi32(0x7FFF),
     );
-    let packed_32 = _mm_or_si128(_mm_or_si128(j1, j2), sat);
+    let sign = _mm_srli_epi32::<16>(_mm_and_si128(b, _mm_set1_epi32(i32::MIN)));
+    let packed_32 = _mm_or_si128(_mm_or_si128(sign, _mm_or_si128(j1, j2)), sat);
     _mm_packus_epi32(packed_32, _mm_setzero_si128())
 }
 
-- 
2.43.0


From 775fb76b3aad8da8dbf209fef3335d5d589a66dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 14/38] fix: u16 alpha association broke alpha, 16-bit values
 and the bit-depth maximum

---
 src/alpha_handle_u16.rs |  33 ++++++-------
 src/avx2/alpha_u16.rs   | 102 ++++++++++++++++++++++------------------
 src/sse/alpha_u16.rs    |  59 ++++++++++-------------
 3 files changed, 98 insertions(+), 96 deletions(-)

diff --git a/src/alpha_handle_u16.rs b/src/alpha_handle_u16.rs
index 92a4880..2f32dac 100644
--- a/src/alpha_handle_u16.rs
+++ b/src/alpha_handle_u16.rs
@@ -71,15 +71,15 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[0] = div_by_1023(src[0] as u32 * a);
             dst[1] = div_by_1023(src[1] as u32 * a);
             dst[2] = div_by_1023(src[2] as u32 * a);
-            dst[3] = div_by_1023(src[3] as u32 * a);
+            dst[3] = src[3];
         }
-    } else if max_colors == 4096 {
+    } else if max_colors == 4095 {
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
             let a = src[3] as u32;
             dst[0] = div_by_4095(src[0] as u32 * a);
             dst[1] = div_by_4095(src[1] as u32 * a);
             dst[2] = div_by_4095(src[2] as u32 * a);
-            dst[3] = div_by_4095(src[3] as u32 * a);
+            dst[3] = src[3];
         }
     } else if max_colors == 65535 {
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
@@ -87,19 +87,19 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[0] = div_by_65535(src[0] as u32 * a);
             dst[1] = div_by_65535(src[1] as u32 * a);
             dst[2] = div_by_65535(src[2] as u32 * a);
-            dst[3] = div_by_65535(src[3] as u32 * a);
+            dst[3] = src[3];
         }
     } else {
         let recip_max_colors = 1. / max_colors as f32;
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
             let a = src[3] as u32;
-            dst[0] =
-                (((src[0] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
-            dst[1] =
-                (((src[1] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
-            dst[2] =
-                (((src[2] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
-            dst[3] = (((a * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
+            dst[0] = (((src[0] as u32 * a) as f32 * recip_max_colors).round() as u32)
+                .min(max_colors) as u16;
+            dst[1] = (((src[1] as u32 * a) as f32 * recip_max_colors).round() as u32)
+                .min(max_colors) as u16;
+            dst[2] = (((src[2] as u32 * a) as f32 * recip_max_colors).round() as u32)
+                .min(max_colors) as u16;
+            dst[3] = src[3];
         }
     }
 }
@@ -108,11 +108,12 @@ pub(crate) fn unpremultiply_alpha_rgba_row(in_place: &mut [u16], max_colors: u32
     for dst in in_place.chunks_exact_mut(4) {
         let a = dst[3] as u32;
         if a != 0 {
-            let a_recip = 1. / a as f32;
-            dst[0] = ((dst[0] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[1] = ((dst[1] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[2] = ((dst[2] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[3] = ((a * max_colors) as f32 * a_recip) as u16;
+            let scale = max_colors as f32 / a as f32;
+            let unpremultiply =
+                |v: u16| ((v as f32 * scale).round() as u32).min(max_colors) as u16;
+            dst[0] = unpremultiply(dst[0]);
+            dst[1] = unpremultiply(dst[1]);
+            dst[2] = unpremultiply(dst[2]);
         }
     }
 }
diff --git a/src/avx2/alpha_u16.rs b/src/avx2/alpha_u16.rs
index 1a0a0b3..abf4027 100644
--- a/src/avx2/alpha_u16.rs
+++ b/src/avx2/alpha_u16.rs
@@ -39,7 +39,7 @@ use std::arch::x86::*;
 use std::arch::x86_64::*;
 
 #[inline(always)]
-unsafe fn _mm256_scale_by_alpha<const FMA: bool>(
+unsafe fn _mm256_scale_by_alpha(
     px: __m256i,
     low_low_a: __m256,
     low_high_a: __m256,
@@ -51,18 +51,8 @@ unsafe fn _mm256_scale_by_alpha<const FMA: bool>(
     let low_px = _mm256_cvtepi32_ps(ls);
     let high_px = _mm256_cvtepi32_ps(hs);
 
-    let (lvs, hvs);
-
-    if FMA {
-        lvs = _mm256_fmadd_ps(low_px, low_low_a, _mm256_set1_ps(0.5f32));
-        hvs = _mm256_fmadd_ps(high_px, low_high_a, _mm256_set1_ps(0.5f32));
-    } else {
-        let lps = _mm256_mul_ps(low_px, low_low_a);
-        let hps = _mm256_mul_ps(high_px, low_high_a);
-
-        lvs = _mm256_round_ps::<0x00>(lps);
-        hvs = _mm256_round_ps::<0x00>(hps);
-    }
+    let lvs = _mm256_mul_ps(low_px, low_low_a);
+    let hvs = _mm256_mul_ps(high_px, low_high_a);
 
     let new_ll = _mm256_cvtps_epi32(lvs);
     let new_lh = _mm256_cvtps_epi32(hvs);
@@ -70,6 +60,24 @@ unsafe fn _mm256_scale_by_alpha<const FMA: bool>(
     _mm256_packus_epi32(new_ll, new_lh)
 }
 
+/// Scales by reciprocal of alpha, result is clamped to the maximum color value
+#[inline(always)]
+unsafe fn _mm256_unscale_by_alpha(
+    px: __m256i,
+    low_low_a: __m256,
+    low_high_a: __m256,
+    v_max_colors: __m256,
+) -> __m256i {
+    let zeros = _mm256_setzero_si256();
+    let low_px = _mm256_cvtepi32_ps(_mm256_unpacklo_epi16(px, zeros));
+    let high_px = _mm256_cvtepi32_ps(_mm256_unpackhi_epi16(px, zeros));
+
+    let lvs = _mm256_min_ps(_mm256_mul_ps(low_px, low_low_a), v_max_colors);
+    let hvs = _mm256_min_ps(_mm256_mul_ps(high_px, low_high_a), v_max_colors);
+
+    _mm256_packus_epi32(_mm256_cvtps_epi32(lvs), _mm256_cvtps_epi32(hvs))
+}
+
 /// Exact division by 1023 with rounding to nearest
 #[inline(always)]
 pub(crate) unsafe fn _mm256_div_by_1023_epi32(v: __m256i) -> __m256i {
@@ -154,12 +162,12 @@ impl<const BIT_DEPTH: usize> Avx2PremultiplyExecutorDefault<BIT_DEPTH> {
         let bl32 = _mm256_unpacklo_epi16(pixel.2, zeros);
         let bh32 = _mm256_unpackhi_epi16(pixel.2, zeros);
 
-        let rl32 = _mm256_madd_epi16(rl32, low_alpha);
-        let rh32 = _mm256_madd_epi16(rh32, high_alpha);
-        let gl32 = _mm256_madd_epi16(gl32, low_alpha);
-        let gh32 = _mm256_madd_epi16(gh32, high_alpha);
-        let bl32 = _mm256_madd_epi16(bl32, low_alpha);
-        let bh32 = _mm256_madd_epi16(bh32, high_alpha);
+        let rl32 = _mm256_mullo_epi32(rl32, low_alpha);
+        let rh32 = _mm256_mullo_epi32(rh32, high_alpha);
+        let gl32 = _mm256_mullo_epi32(gl32, low_alpha);
+        let gh32 = _mm256_mullo_epi32(gh32, high_alpha);
+        let bl32 = _mm256_mullo_epi32(bl32, low_alpha);
+        let bh32 = _mm256_mullo_epi32(bh32, high_alpha);
 
         let lr32 = _mm256_div_by_epi32::<BIT_DEPTH>(rl32);
         let hr32 = _mm256_div_by_epi32::<BIT_DEPTH>(rh32);
@@ -246,9 +254,9 @@ impl Avx2PremultiplyExecutorAnyBit {
         let low_alpha = _mm256_mul_ps(lla, scale);
         let high_alpha = _mm256_mul_ps(hla, scale);
 
-        let new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
-        let new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
-        let new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        let new_rrr = _mm256_scale_by_alpha(pixel.0, low_alpha, high_alpha);
+        let new_ggg = _mm256_scale_by_alpha(pixel.1, low_alpha, high_alpha);
+        let new_bbb = _mm256_scale_by_alpha(pixel.2, low_alpha, high_alpha);
 
         let dst_ptr = dst.as_mut_ptr();
 
@@ -418,7 +426,7 @@ pub(crate) fn avx_unpremultiply_alpha_rgba_u16(
 
 /// This inlining is required to activate all features for runtime dispatch
 #[inline(always)]
-unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
+unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl(
     in_place: &mut [u16],
     bit_depth: usize,
 ) {
@@ -441,21 +449,21 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
 
         let is_zero_alpha_mask = _mm256_cmpeq_epi16(pixel.3, zeros);
 
-        let mut low_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)));
-
-        low_alpha = _mm256_mul_ps(low_alpha, v_scale_colors);
-
-        let mut high_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)));
+        let low_alpha = _mm256_div_ps(
+            v_scale_colors,
+            _mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)),
+        );
 
-        high_alpha = _mm256_mul_ps(high_alpha, v_scale_colors);
+        let high_alpha = _mm256_div_ps(
+            v_scale_colors,
+            _mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)),
+        );
 
-        let mut new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
+        let mut new_rrr = _mm256_unscale_by_alpha(pixel.0, low_alpha, high_alpha, v_scale_colors);
         new_rrr = _mm256_select_si256(is_zero_alpha_mask, pixel.0, new_rrr);
-        let mut new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
+        let mut new_ggg = _mm256_unscale_by_alpha(pixel.1, low_alpha, high_alpha, v_scale_colors);
         new_ggg = _mm256_select_si256(is_zero_alpha_mask, pixel.1, new_ggg);
-        let mut new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        let mut new_bbb = _mm256_unscale_by_alpha(pixel.2, low_alpha, high_alpha, v_scale_colors);
         new_bbb = _mm256_select_si256(is_zero_alpha_mask, pixel.2, new_bbb);
 
         let dst_ptr = dst.as_mut_ptr();
@@ -487,21 +495,21 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
 
         let is_zero_alpha_mask = _mm256_cmpeq_epi16(pixel.3, zeros);
 
-        let mut low_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)));
-
-        low_alpha = _mm256_mul_ps(low_alpha, v_scale_colors);
-
-        let mut high_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)));
+        let low_alpha = _mm256_div_ps(
+            v_scale_colors,
+            _mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)),
+        );
 
-        high_alpha = _mm256_mul_ps(high_alpha, v_scale_colors);
+        let high_alpha = _mm256_div_ps(
+            v_scale_colors,
+            _mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)),
+        );
 
-        let mut new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
+        let mut new_rrr = _mm256_unscale_by_alpha(pixel.0, low_alpha, high_alpha, v_scale_colors);
         new_rrr = _mm256_select_si256(is_zero_alpha_mask, pixel.0, new_rrr);
-        let mut new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
+        let mut new_ggg = _mm256_unscale_by_alpha(pixel.1, low_alpha, high_alpha, v_scale_colors);
         new_ggg = _mm256_select_si256(is_zero_alpha_mask, pixel.1, new_ggg);
-        let mut new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        let mut new_bbb = _mm256_unscale_by_alpha(pixel.2, low_alpha, high_alpha, v_scale_colors);
         new_bbb = _mm256_select_si256(is_zero_alpha_mask, pixel.2, new_bbb);
 
         let (d_lane0, d_lane1, d_lane2, d_lane3) =
@@ -519,13 +527,13 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
 #[target_feature(enable = "avx2")]
 /// This inlining is required to activate all features for runtime dispatch
 unsafe fn avx_unpremultiply_alpha_rgba_u16_row_avx(in_place: &mut [u16], bit_depth: usize) {
-    avx_unpremultiply_alpha_rgba_u16_row_impl::<false>(in_place, bit_depth);
+    avx_unpremultiply_alpha_rgba_u16_row_impl(in_place, bit_depth);
 }
 
 #[target_feature(enable = "avx2", enable = "fma")]
 /// This inlining is required to activate all features for runtime dispatch
 unsafe fn avx_unpremultiply_alpha_rgba_u16_row_fma(in_place: &mut [u16], bit_depth: usize) {
-    avx_unpremultiply_alpha_rgba_u16_row_impl::<true>(in_place, bit_depth);
+    avx_unpremultiply_alpha_rgba_u16_row_impl(in_place, bit_depth);
 }
 
 #[target_feature(enable = "avx2")]
diff --git a/src/sse/alpha_u16.rs b/src/sse/alpha_u16.rs
index a20897d..9b01075 100644
--- a/src/sse/alpha_u16.rs
+++ b/src/sse/alpha_u16.rs
@@ -43,21 +43,22 @@ unsafe fn sse_unpremultiply_row_u16(
     is_zero_mask: __m128i,
     a_lo_f: __m128,
     a_hi_f: __m128,
+    v_max_colors: __m128,
 ) -> __m128i {
     let zeros = _mm_setzero_si128();
     let lo = _mm_unpacklo_epi16(x, zeros);
     let hi = _mm_unpackhi_epi16(x, zeros);
 
-    let new_lo = _mm_cvtps_epi32(_mm_add_ps(
-        _mm_set1_ps(0.5f32),
+    let new_lo = _mm_cvtps_epi32(_mm_min_ps(
         _mm_mul_ps(_mm_cvtepi32_ps(lo), a_lo_f),
+        v_max_colors,
     ));
-    let new_hi = _mm_cvtps_epi32(_mm_add_ps(
-        _mm_set1_ps(0.5f32),
+    let new_hi = _mm_cvtps_epi32(_mm_min_ps(
         _mm_mul_ps(_mm_cvtepi32_ps(hi), a_hi_f),
+        v_max_colors,
     ));
 
-    let pixel = _mm_packs_epi32(new_lo, new_hi);
+    let pixel = _mm_packus_epi32(new_lo, new_hi);
     _mm_select_si128(is_zero_mask, x, pixel)
 }
 
@@ -130,24 +131,18 @@ impl DisassociateAlphaDefault {
         let (rrrr, gggg, bbbb, aaaa) = sse_deinterleave_rgba_epi16(row0, row1, row2, row3);
 
         let is_zero_mask = _mm_cmpeq_epi16(aaaa, _mm_setzero_si128());
-        let a_lo_f = _mm_mul_ps(
-            _mm_rcp_ps(_mm_cvtepi32_ps(_mm_unpacklo_epi16(
-                aaaa,
-                _mm_setzero_si128(),
-            ))),
+        let a_lo_f = _mm_div_ps(
             v_max_colors,
+            _mm_cvtepi32_ps(_mm_unpacklo_epi16(aaaa, _mm_setzero_si128())),
         );
-        let a_hi_f = _mm_mul_ps(
-            _mm_rcp_ps(_mm_cvtepi32_ps(_mm_unpackhi_epi16(
-                aaaa,
-                _mm_setzero_si128(),
-            ))),
+        let a_hi_f = _mm_div_ps(
             v_max_colors,
+            _mm_cvtepi32_ps(_mm_unpackhi_epi16(aaaa, _mm_setzero_si128())),
         );
 
-        let new_rrrr = sse_unpremultiply_row_u16(rrrr, is_zero_mask, a_lo_f, a_hi_f);
-        let new_gggg = sse_unpremultiply_row_u16(gggg, is_zero_mask, a_lo_f, a_hi_f);
-        let new_bbbb = sse_unpremultiply_row_u16(bbbb, is_zero_mask, a_lo_f, a_hi_f);
+        let new_rrrr = sse_unpremultiply_row_u16(rrrr, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
+        let new_gggg = sse_unpremultiply_row_u16(gggg, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
+        let new_bbbb = sse_unpremultiply_row_u16(bbbb, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
 
         let (rgba0, rgba1, rgba2, rgba3) =
             sse_interleave_rgba_epi16(new_rrrr, new_gggg, new_bbbb, aaaa);
@@ -219,15 +214,13 @@ unsafe fn unpremultiply_alpha_sse_rgba_u16_impl(
                 });
         });
     } else {
-        in_place
-            .par_chunks_exact_mut(stride)
-            .for_each(|row| unsafe {
-                unpremultiply_alpha_sse_rgba_u16_row_impl(
-                    &mut row[..width * 4],
-                    bit_depth,
-                    DisassociateAlphaDefault::default(),
-                );
-            });
+        in_place.chunks_exact_mut(stride).for_each(|row| unsafe {
+            unpremultiply_alpha_sse_rgba_u16_row_impl(
+                &mut row[..width * 4],
+                bit_depth,
+                DisassociateAlphaDefault::default(),
+            );
+        });
     }
 }
 
@@ -312,16 +305,16 @@ impl<const BIT_DEPTH: usize> Sse41PremultiplyExecutorDefault<BIT_DEPTH> {
         let a_hi_f = _mm_unpackhi_epi16(aaaa, zeros);
 
         let new_rrrr = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(rrrr, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(rrrr, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(rrrr, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(rrrr, zeros), a_hi_f)),
         );
         let new_gggg = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(gggg, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(gggg, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(gggg, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(gggg, zeros), a_hi_f)),
         );
         let new_bbbb = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(bbbb, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(bbbb, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(bbbb, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(bbbb, zeros), a_hi_f)),
         );
 
         let (rgba0, rgba1, rgba2, rgba3) =
-- 
2.43.0


From a4728c0f4d879aa7deb992a114d17ee9d8ec4d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 15/38] fix: u8 horizontal passes chose low-precision AVX2
 kernels regardless of CPU and scale

---
 src/plane_u8.rs | 2 +-
 src/rgba_u8.rs  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/plane_u8.rs b/src/plane_u8.rs
index 68da74d..0648e99 100644
--- a/src/plane_u8.rs
+++ b/src/plane_u8.rs
@@ -56,7 +56,7 @@ impl HorizontalConvolutionPass<u8, 1> for ImageStore<'_, u8, 1> {
         _pool: &Option<ThreadPool>,
         _options: ConvolutionOptions,
     ) {
-        let _scale_factor = self.height as f32 / destination.height as f32;
+        let _scale_factor = self.width as f32 / destination.width as f32;
         let mut _dispatcher_4_rows: Option<
             fn(&[u8], usize, &mut [u8], usize, &FilterWeights<i16>),
         > = Some(handle_fixed_rows_4_u8::<1>);
diff --git a/src/rgba_u8.rs b/src/rgba_u8.rs
index fc6c4a6..0336411 100644
--- a/src/rgba_u8.rs
+++ b/src/rgba_u8.rs
@@ -112,7 +112,8 @@ impl HorizontalConvolutionPass<u8, 4> for ImageStore<'_, u8, 4> {
         }
         #[cfg(all(target_arch = "x86_64", feature = "avx"))]
         {
-            if (std::arch::is_x86_feature_detected!("avx2") || _scale_factor < 8.)
+            if std::arch::is_x86_feature_detected!("avx2")
+                && _scale_factor < 8.
                 && _options.workload_strategy == crate::WorkloadStrategy::PreferSpeed
             {
                 _dispatcher_4_rows = Some(convolve_horizontal_rgba_avx_rows_4_lb);
-- 
2.43.0


From 4ad38a983c2bb1dec1b6214503886e7b60b84127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 16/38] fix: AVX2 low-precision RGBA u8 kernel gave alpha the
 next tap's weight

---
 src/avx2/rgba_u8_lb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avx2/rgba_u8_lb.rs b/src/avx2/rgba_u8_lb.rs
index d9663d3..fd4267e 100644
--- a/src/avx2/rgba_u8_lb.rs
+++ b/src/avx2/rgba_u8_lb.rs
@@ -154,7 +154,7 @@ unsafe fn convolve_horizontal_rgba_avx_rows_4_impl(
             let w7 = w_ptr[7];
 
             let weights0 = _mm256_setr_epi16(
-                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w5, w5, w5, w5, w5,
+                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w4, w5, w5, w5, w5,
             );
             let weights1 = _mm256_setr_epi16(
                 w2, w2, w2, w2, w3, w3, w3, w3, w6, w6, w6, w6, w7, w7, w7, w7,
@@ -363,7 +363,7 @@ unsafe fn convolve_horizontal_rgba_avx_rows_one_impl(
             let w7 = w_ptr[7];
 
             let weights0 = _mm256_setr_epi16(
-                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w5, w5, w5, w5, w5,
+                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w4, w5, w5, w5, w5,
             );
             let weights1 = _mm256_setr_epi16(
                 w2, w2, w2, w2, w3, w3, w3, w3, w6, w6, w6, w6, w7, w7, w7, w7,
-- 
2.43.0


From 3bfab16c08ca1df2a9683aab06766b765a01791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 17/38] fix: absurd image dimensions overflowed in validation
 instead of being refused

---
 src/image_store.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index b1b1bb0..194b347 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -33,6 +33,7 @@ use crate::alpha_handle_f32::{premultiply_alpha_rgba_f32, unpremultiply_alpha_rg
 use crate::alpha_handle_u16::{premultiply_alpha_rgba_u16, unpremultiply_alpha_rgba_u16};
 use crate::alpha_handle_u8::{premultiply_alpha_rgba, unpremultiply_alpha_rgba};
 use crate::pic_scale_error::{PicScaleBufferMismatch, PicScaleError};
+use crate::support::check_image_size_overflow;
 use crate::ImageSize;
 #[cfg(feature = "nightly_f16")]
 use core::f16;
@@ -219,8 +220,14 @@ where
     T: Clone + Copy + Debug + Default,
 {
     pub(crate) fn validate(&self) -> Result<(), PicScaleError> {
-        let expected_size = self.stride() * self.height;
-        if self.buffer.borrow().len() != self.stride() * self.height {
+        if check_image_size_overflow(self.width, self.height, N) {
+            return Err(PicScaleError::DestinationImageIsTooLarge);
+        }
+        let expected_size = match self.stride().checked_mul(self.height) {
+            None => return Err(PicScaleError::DestinationImageIsTooLarge),
+            Some(size) => size,
+        };
+        if self.buffer.borrow().len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width: self.width,
@@ -241,8 +248,14 @@ where
     T: Clone + Copy + Debug + Default,
 {
     pub(crate) fn validate(&self) -> Result<(), PicScaleError> {
-        let expected_size = self.stride() * self.height;
-        if self.buffer.as_ref().len() != self.stride() * self.height {
+        if check_image_size_overflow(self.width, self.height, N) {
+            return Err(PicScaleError::SourceImageIsTooLarge);
+        }
+        let expected_size = match self.stride().checked_mul(self.height) {
+            None => return Err(PicScaleError::SourceImageIsTooLarge),
+            Some(size) => size,
+        };
+        if self.buffer.as_ref().len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width: self.width,
-- 
2.43.0


From 25ca953794748944d88b1d1841a0723d9d057754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 18/38] fix: images with the documented zero stride were
 refused

---
 src/image_store.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index 194b347..1b3ba43 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -236,8 +236,8 @@ where
                 slice_len: self.buffer.borrow().len(),
             }));
         }
-        if self.stride < self.width * N {
-            return Err(PicScaleError::InvalidStride(self.width * N, self.stride));
+        if self.stride() < self.width * N {
+            return Err(PicScaleError::InvalidStride(self.width * N, self.stride()));
         }
         Ok(())
     }
@@ -264,8 +264,8 @@ where
                 slice_len: self.buffer.as_ref().len(),
             }));
         }
-        if self.stride < self.width * N {
-            return Err(PicScaleError::InvalidStride(self.width * N, self.stride));
+        if self.stride() < self.width * N {
+            return Err(PicScaleError::InvalidStride(self.width * N, self.stride()));
         }
         Ok(())
     }
-- 
2.43.0


From 1d34e6b9f7a2a3342f4f28bd1f062fb38fe4a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 19/38] fix: same-size resizing copied row padding into the
 destination

---
 src/image_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index 1b3ba43..ed21b50 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -456,7 +456,7 @@ where
             .chunks_exact(self.stride())
             .zip(into.buffer.borrow_mut().chunks_exact_mut(into_stride))
         {
-            for (&src, dst) in src_row.iter().zip(dst_row.iter_mut()) {
+            for (&src, dst) in src_row.iter().zip(dst_row.iter_mut()).take(self.width * N) {
                 *dst = src;
             }
         }
-- 
2.43.0


From d2a207d70978603cd45f29088783d83ccb5efc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 20/38] fix: copies of strided images claimed to be tightly
 packed

---
 src/image_store.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index ed21b50..a3f23a0 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -443,7 +443,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride,
             bit_depth: self.bit_depth,
         }
     }
@@ -510,7 +510,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride,
             bit_depth: self.bit_depth,
         }
     }
@@ -521,7 +521,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride,
             bit_depth: self.bit_depth,
         }
     }
-- 
2.43.0


From e6d2d51fc469016ebff662e5e25848e4eb1377f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 21/38] fix: half-float planar and two-channel resizing
 overwrote destination row padding

---
 src/f16.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/f16.rs b/src/f16.rs
index cc0dae9..6130e7b 100644
--- a/src/f16.rs
+++ b/src/f16.rs
@@ -85,8 +85,14 @@ fn convolve_horizontal_rgba_4_row_f16<const CHANNELS: usize>(
         filter_weights,
         8,
     );
-    for (dst, src) in dst.iter_mut().zip(transient_dst.iter()) {
-        *dst = *src as f16;
+    let row_len = filter_weights.bounds.len() * CHANNELS;
+    for (dst, src) in dst
+        .chunks_mut(dst_stride)
+        .zip(transient_dst.chunks(dst_stride))
+    {
+        for (dst, src) in dst.iter_mut().zip(src.iter()).take(row_len) {
+            *dst = *src as f16;
+        }
     }
 }
 
@@ -105,7 +111,8 @@ fn convolve_horizontal_rgb_native_row_f16<const CHANNELS: usize>(
         filter_weights,
         8,
     );
-    for (dst, src) in dst.iter_mut().zip(transient_dst.iter()) {
+    let row_len = filter_weights.bounds.len() * CHANNELS;
+    for (dst, src) in dst.iter_mut().zip(transient_dst.iter()).take(row_len) {
         *dst = *src as f16;
     }
 }
-- 
2.43.0


From 8a5e003ef684ec598cd21919e68cc6b153ce1a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 22/38] fix: colour-space scalers ignored row strides

---
 src/colors/jzazbz_scaler.rs         | 10 ++++++----
 src/colors/lab_scaler.rs            | 10 ++++++----
 src/colors/lch_scaler.rs            | 10 ++++++----
 src/colors/linear_precise_scaler.rs | 10 ++++++----
 src/colors/linear_scaler.rs         | 10 ++++++----
 src/colors/luv_scaler.rs            | 10 ++++++----
 src/colors/oklab_scaler.rs          | 10 ++++++----
 src/colors/sigmoidal_scaler.rs      | 10 ++++++----
 src/colors/xyz_scaler.rs            | 10 ++++++----
 9 files changed, 54 insertions(+), 36 deletions(-)

diff --git a/src/colors/jzazbz_scaler.rs b/src/colors/jzazbz_scaler.rs
index a4d344a..df536d6 100644
--- a/src/colors/jzazbz_scaler.rs
+++ b/src/colors/jzazbz_scaler.rs
@@ -64,7 +64,7 @@ impl JzazbzScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_jzazbz(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -88,11 +88,12 @@ impl JzazbzScaler {
         store: &ImageStoreMut<'a, f32, 4>,
         into: &mut ImageStoreMut<'a, u8, 4>,
     ) {
+        let into_stride = into.stride() as u32;
         jzazbz_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride,
             store.width as u32,
             store.height as u32,
             self.display_luminance,
@@ -151,7 +152,7 @@ impl Scaling for JzazbzScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_jzazbz(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -176,11 +177,12 @@ impl Scaling for JzazbzScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         jzazbz_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.display_luminance,
diff --git a/src/colors/lab_scaler.rs b/src/colors/lab_scaler.rs
index cec1421..620eefb 100644
--- a/src/colors/lab_scaler.rs
+++ b/src/colors/lab_scaler.rs
@@ -54,7 +54,7 @@ impl LabScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_lab_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -74,11 +74,12 @@ impl LabScaler {
     }
 
     fn laba_to_srgba<'a>(store: &ImageStoreMut<'a, f32, 4>, into: &mut ImageStoreMut<'a, u8, 4>) {
+        let into_stride = into.stride() as u32;
         lab_with_alpha_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride,
             store.width as u32,
             store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -138,7 +139,7 @@ impl Scaling for LabScaler {
 
         rgb_to_lab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -162,11 +163,12 @@ impl Scaling for LabScaler {
 
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         lab_to_srgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
diff --git a/src/colors/lch_scaler.rs b/src/colors/lch_scaler.rs
index db1b2d6..7383935 100644
--- a/src/colors/lch_scaler.rs
+++ b/src/colors/lch_scaler.rs
@@ -55,7 +55,7 @@ impl LChScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_lch_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -75,11 +75,12 @@ impl LChScaler {
     }
 
     fn lcha_to_srgba<'a>(store: &ImageStoreMut<'a, f32, 4>, into: &mut ImageStoreMut<'a, u8, 4>) {
+        let into_stride = into.stride() as u32;
         lch_with_alpha_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride,
             store.width as u32,
             store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -141,7 +142,7 @@ impl Scaling for LChScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_lch(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -166,11 +167,12 @@ impl Scaling for LChScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         lch_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
diff --git a/src/colors/linear_precise_scaler.rs b/src/colors/linear_precise_scaler.rs
index 417c89b..735f942 100644
--- a/src/colors/linear_precise_scaler.rs
+++ b/src/colors/linear_precise_scaler.rs
@@ -118,7 +118,7 @@ impl Scaling for LinearScaler {
 
         rgb_to_linear(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -141,11 +141,12 @@ impl Scaling for LinearScaler {
             .resize_rgb_f32(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         linear_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -191,7 +192,7 @@ impl Scaling for LinearScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_linear(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -215,11 +216,12 @@ impl Scaling for LinearScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         linear_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             TransferFunction::Srgb,
diff --git a/src/colors/linear_scaler.rs b/src/colors/linear_scaler.rs
index 7189346..26dfd87 100644
--- a/src/colors/linear_scaler.rs
+++ b/src/colors/linear_scaler.rs
@@ -118,7 +118,7 @@ impl Scaling for LinearApproxScaler {
 
         rgb_to_linear_u8(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -141,11 +141,12 @@ impl Scaling for LinearApproxScaler {
             .resize_rgb(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<u8>() as u32;
+        let into_stride = into.stride() as u32;
         linear_u8_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -195,7 +196,7 @@ impl Scaling for LinearApproxScaler {
 
         rgba_to_linear_u8(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -218,11 +219,12 @@ impl Scaling for LinearApproxScaler {
             .resize_rgba(&new_immutable_store, &mut new_store, premultiply_alpha)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<u8>() as u32;
+        let into_stride = into.stride() as u32;
         linear_u8_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
diff --git a/src/colors/luv_scaler.rs b/src/colors/luv_scaler.rs
index a1df0c8..b52e449 100644
--- a/src/colors/luv_scaler.rs
+++ b/src/colors/luv_scaler.rs
@@ -104,7 +104,7 @@ impl Scaling for LuvScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_luv(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -129,11 +129,12 @@ impl Scaling for LuvScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         luv_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -183,7 +184,7 @@ impl Scaling for LuvScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_luv_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -208,11 +209,12 @@ impl Scaling for LuvScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         luv_with_alpha_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
diff --git a/src/colors/oklab_scaler.rs b/src/colors/oklab_scaler.rs
index b74f7c4..7541a7f 100644
--- a/src/colors/oklab_scaler.rs
+++ b/src/colors/oklab_scaler.rs
@@ -104,7 +104,7 @@ impl Scaling for OklabScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_oklab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -128,11 +128,12 @@ impl Scaling for OklabScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         oklab_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -181,7 +182,7 @@ impl Scaling for OklabScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_oklab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -205,11 +206,12 @@ impl Scaling for OklabScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         oklab_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
diff --git a/src/colors/sigmoidal_scaler.rs b/src/colors/sigmoidal_scaler.rs
index bf9b963..48d54c5 100644
--- a/src/colors/sigmoidal_scaler.rs
+++ b/src/colors/sigmoidal_scaler.rs
@@ -100,7 +100,7 @@ impl Scaling for SigmoidalScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_sigmoidal(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -123,11 +123,12 @@ impl Scaling for SigmoidalScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         sigmoidal_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
@@ -175,7 +176,7 @@ impl Scaling for SigmoidalScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_sigmoidal(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -198,11 +199,12 @@ impl Scaling for SigmoidalScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         sigmoidal_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
diff --git a/src/colors/xyz_scaler.rs b/src/colors/xyz_scaler.rs
index ae8a32e..2e307da 100644
--- a/src/colors/xyz_scaler.rs
+++ b/src/colors/xyz_scaler.rs
@@ -105,7 +105,7 @@ impl Scaling for XYZScaler {
 
         srgb_to_xyz(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -127,11 +127,12 @@ impl Scaling for XYZScaler {
             .resize_rgb_f32(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         xyz_to_srgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
@@ -180,7 +181,7 @@ impl Scaling for XYZScaler {
 
         rgba_to_xyz_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -204,11 +205,12 @@ impl Scaling for XYZScaler {
             .resize_rgba_f32(&new_immutable_store, &mut new_store, premultiply_alpha)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         xyz_with_alpha_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
-- 
2.43.0


From eb6bcd8a85a9f982c685fccd0562c7f22756aef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 23/38] fix: LinearScaler used the sRGB transfer for RGBA
 whatever was asked for

---
 src/colors/linear_precise_scaler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colors/linear_precise_scaler.rs b/src/colors/linear_precise_scaler.rs
index 735f942..7f52731 100644
--- a/src/colors/linear_precise_scaler.rs
+++ b/src/colors/linear_precise_scaler.rs
@@ -197,7 +197,7 @@ impl Scaling for LinearScaler {
             lab_stride,
             lab_store.width as u32,
             lab_store.height as u32,
-            TransferFunction::Srgb,
+            self.transfer_function,
         );
 
         let new_immutable_store = ImageStore::<f32, COMPONENTS> {
@@ -224,7 +224,7 @@ impl Scaling for LinearScaler {
             into_stride,
             new_store.width as u32,
             new_store.height as u32,
-            TransferFunction::Srgb,
+            self.transfer_function,
         );
 
         Ok(())
-- 
2.43.0


From 34253009275f39b1657eea313a618a084fde8e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 24/38] fix: black pixels spread NaN through the LCh and Luv
 scalers

---
 src/colors/lch_scaler.rs | 3 +++
 src/colors/luv_scaler.rs | 3 +++
 src/colors/mod.rs        | 8 ++++++++
 3 files changed, 14 insertions(+)

diff --git a/src/colors/lch_scaler.rs b/src/colors/lch_scaler.rs
index 7383935..9d53bbc 100644
--- a/src/colors/lch_scaler.rs
+++ b/src/colors/lch_scaler.rs
@@ -33,6 +33,7 @@ use colorutils_rs::{
 };
 
 use crate::pic_scale_error::PicScaleError;
+use crate::colors::define_chromaticity_of_black;
 use crate::scaler::ScalingF32;
 use crate::support::check_image_size_overflow;
 use crate::{ImageStore, ImageStoreMut, ResamplingFunction, Scaler, Scaling, ThreadingPolicy};
@@ -63,6 +64,7 @@ impl LChScaler {
             &SRGB_TO_XYZ_D65,
             TransferFunction::Srgb,
         );
+        define_chromaticity_of_black(&mut source_slice);
         let new_store = ImageStore::<f32, 4> {
             buffer: std::borrow::Cow::Owned(source_slice),
             channels: 4,
@@ -150,6 +152,7 @@ impl Scaling for LChScaler {
             &SRGB_TO_XYZ_D65,
             TransferFunction::Srgb,
         );
+        define_chromaticity_of_black(lab_store.buffer.borrow_mut());
 
         let new_immutable_store = ImageStore::<f32, COMPONENTS> {
             buffer: std::borrow::Cow::Owned(target_vertical),
diff --git a/src/colors/luv_scaler.rs b/src/colors/luv_scaler.rs
index b52e449..218619b 100644
--- a/src/colors/luv_scaler.rs
+++ b/src/colors/luv_scaler.rs
@@ -33,6 +33,7 @@ use colorutils_rs::{
 };
 
 use crate::pic_scale_error::PicScaleError;
+use crate::colors::define_chromaticity_of_black;
 use crate::scaler::ScalingF32;
 use crate::support::check_image_size_overflow;
 use crate::{ImageStore, ImageStoreMut, ResamplingFunction, Scaler, Scaling, ThreadingPolicy};
@@ -112,6 +113,7 @@ impl Scaling for LuvScaler {
             &SRGB_TO_XYZ_D65,
             TransferFunction::Srgb,
         );
+        define_chromaticity_of_black(lab_store.buffer.borrow_mut());
 
         let new_immutable_store = ImageStore::<f32, COMPONENTS> {
             buffer: std::borrow::Cow::Owned(target_vertical),
@@ -192,6 +194,7 @@ impl Scaling for LuvScaler {
             &SRGB_TO_XYZ_D65,
             TransferFunction::Srgb,
         );
+        define_chromaticity_of_black(lab_store.buffer.borrow_mut());
 
         let new_immutable_store = ImageStore::<f32, COMPONENTS> {
             buffer: std::borrow::Cow::Owned(target_vertical),
diff --git a/src/colors/mod.rs b/src/colors/mod.rs
index e806bb7..4047f0e 100644
--- a/src/colors/mod.rs
+++ b/src/colors/mod.rs
@@ -46,3 +46,11 @@ pub use luv_scaler::*;
 pub use oklab_scaler::OklabScaler;
 pub use sigmoidal_scaler::*;
 pub use xyz_scaler::*;
+
+/// The chromaticity (and so the hue) of black is undefined, and conversions may give NaN for it,
+/// which would spread to the neighbouring pixels when resampling
+pub(crate) fn define_chromaticity_of_black(components: &mut [f32]) {
+    for v in components.iter_mut().filter(|v| v.is_nan()) {
+        *v = 0.;
+    }
+}
-- 
2.43.0


From 224f9b25395c04fcfedf4f2052f2270110fd6e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 25/38] fix: filter weights above one were cut off for 16-bit
 images of up to 12 bits

---
 src/dispatch_group_u16.rs | 10 ++++++----
 src/filter_weights.rs     | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/dispatch_group_u16.rs b/src/dispatch_group_u16.rs
index fb2ada7..98fe901 100644
--- a/src/dispatch_group_u16.rs
+++ b/src/dispatch_group_u16.rs
@@ -57,10 +57,11 @@ pub(crate) fn convolve_horizontal_dispatch_u16<const CHANNELS: usize>(
 
     let src_stride = image_store.stride();
     let bit_depth = destination.bit_depth;
+    let is_floating = bit_depth > 12 || !filter_weights.fixed_point_overflows().is_empty();
 
     if let Some(pool) = pool {
         pool.install(|| {
-            if bit_depth > 12 {
+            if is_floating {
                 dst.par_chunks_exact_mut(dst_stride * 4)
                     .zip(src.par_chunks_exact(src_stride * 4))
                     .for_each(|(dst, src)| {
@@ -109,7 +110,7 @@ pub(crate) fn convolve_horizontal_dispatch_u16<const CHANNELS: usize>(
                     });
             }
         });
-    } else if bit_depth > 12 {
+    } else if is_floating {
         dst.chunks_exact_mut(dst_stride * 4)
             .zip(src.chunks_exact(src_stride * 4))
             .for_each(|(dst, src)| {
@@ -169,13 +170,14 @@ pub(crate) fn convolve_vertical_dispatch_u16<const COMPONENTS: usize>(
     let src_stride = image_store.stride();
     let dst_stride = destination.stride();
     let bit_depth = destination.bit_depth;
+    let is_floating = bit_depth > 12 || !filter_weights.fixed_point_overflows().is_empty();
 
     let dst_width = destination.width;
 
     if let Some(pool) = pool {
         pool.install(|| {
             let destination_image = destination.buffer.borrow_mut();
-            if bit_depth > 12 {
+            if is_floating {
                 destination_image
                     .par_chunks_exact_mut(dst_stride)
                     .enumerate()
@@ -243,7 +245,7 @@ pub(crate) fn convolve_vertical_dispatch_u16<const COMPONENTS: usize>(
                 );
             }
         });
-    } else if bit_depth > 12 {
+    } else if is_floating {
         let destination_image = destination.buffer.borrow_mut();
         destination_image
             .chunks_exact_mut(dst_stride)
diff --git a/src/filter_weights.rs b/src/filter_weights.rs
index be308e8..b0adc7c 100644
--- a/src/filter_weights.rs
+++ b/src/filter_weights.rs
@@ -71,6 +71,20 @@ impl<T> FilterWeights<T> {
 }
 
 impl FilterWeights<f32> {
+    /// Output positions whose weights do not fit into signed 16-bit fixed point
+    pub(crate) fn fixed_point_overflows(&self) -> Vec<usize> {
+        let limit = 1f32 + 1f32 / (1 << crate::support::PRECISION) as f32;
+        self.bounds
+            .iter()
+            .zip(self.weights.chunks_exact(self.aligned_size))
+            .enumerate()
+            .filter(|(_, (bounds, weights))| {
+                weights.iter().take(bounds.size).any(|w| w.abs() > limit)
+            })
+            .map(|(i, _)| i)
+            .collect()
+    }
+
     pub(crate) fn numerical_approximation_i16<const PRECISION: i32>(
         &self,
         alignment: usize,
-- 
2.43.0


From 38439f2cef10c2dd4a7b0ef35137728682b29120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 26/38] fix: filter weights above one were cut off for 8-bit
 and packed 10-bit images

---
 src/dispatch_group_ar30.rs | 103 +++++++++++++++++++++++++++++++++++++
 src/dispatch_group_u8.rs   |  84 +++++++++++++++++++++++++++++-
 2 files changed, 185 insertions(+), 2 deletions(-)

diff --git a/src/dispatch_group_ar30.rs b/src/dispatch_group_ar30.rs
index 761ddae..215eb78 100644
--- a/src/dispatch_group_ar30.rs
+++ b/src/dispatch_group_ar30.rs
@@ -27,6 +27,7 @@
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 
+use crate::color_group::{load_ar30_p, ColorGroup};
 use crate::convolution::ConvolutionOptions;
 use crate::filter_weights::{FilterBounds, FilterWeights};
 use crate::fixed_point_horizontal_ar30::{
@@ -50,6 +51,7 @@ pub(crate) fn convolve_horizontal_dispatch_ar30<const AR30_TYPE: usize, const AR
 ) {
     #[cfg(all(target_arch = "aarch64", target_feature = "neon", feature = "rdm"))]
     let is_rdm_available = std::arch::is_aarch64_feature_detected!("rdm");
+    let wide = filter_weights.fixed_point_overflows();
     if let Some(pool) = pool {
         pool.install(|| {
             let approx = filter_weights.numerical_approximation_i16::<PRECISION>(0);
@@ -123,6 +125,19 @@ pub(crate) fn convolve_horizontal_dispatch_ar30<const AR30_TYPE: usize, const AR
                     }
                     _dispatch(src, dst, &approx);
                 });
+
+            if !wide.is_empty() {
+                dst.par_chunks_exact_mut(dst_stride)
+                    .zip(src.par_chunks_exact(src_stride))
+                    .for_each(|(dst, src)| {
+                        convolve_wide_columns::<AR30_TYPE, AR30_ORDER>(
+                            src,
+                            dst,
+                            &filter_weights,
+                            &wide,
+                        );
+                    });
+            }
         });
     } else {
         let approx = filter_weights.numerical_approximation_i16::<PRECISION>(0);
@@ -192,6 +207,75 @@ pub(crate) fn convolve_horizontal_dispatch_ar30<const AR30_TYPE: usize, const AR
                 }
                 _dispatch(src, dst, &approx);
             });
+
+        if !wide.is_empty() {
+            dst.chunks_exact_mut(dst_stride)
+                .zip(src.chunks_exact(src_stride))
+                .for_each(|(dst, src)| {
+                    convolve_wide_columns::<AR30_TYPE, AR30_ORDER>(
+                        src,
+                        dst,
+                        &filter_weights,
+                        &wide,
+                    );
+                });
+        }
+    }
+}
+
+/// Weighted sum of the pixels at `src`, `step` bytes apart, for weights that do not fit into fixed point
+fn convolve_wide_pixel<const AR30_TYPE: usize, const AR30_ORDER: usize>(
+    src: &[u8],
+    step: usize,
+    dst: &mut [u8],
+    weights: &[f32],
+) {
+    let mut sums = [0f32; 3];
+    for (&weight, src) in weights.iter().zip(src.chunks(step)) {
+        let px = load_ar30_p!(src, AR30_TYPE, AR30_ORDER);
+        sums[0] += weight * px.r as f32;
+        sums[1] += weight * px.g as f32;
+        sums[2] += weight * px.b as f32;
+    }
+    let [r, g, b] = sums.map(|sum| sum.round().max(0.).min(1023.) as i32);
+    let packed = ColorGroup::<4, i32>::from_components(r, g, b, 3);
+    dst.copy_from_slice(&packed.to_ar30::<AR30_TYPE, AR30_ORDER>().to_ne_bytes());
+}
+
+/// Recomputes the columns whose weights do not fit into fixed point
+fn convolve_wide_columns<const AR30_TYPE: usize, const AR30_ORDER: usize>(
+    src: &[u8],
+    dst: &mut [u8],
+    filter_weights: &FilterWeights<f32>,
+    columns: &[usize],
+) {
+    for &x in columns {
+        let bounds = filter_weights.bounds[x];
+        let weights = &filter_weights.weights[x * filter_weights.aligned_size..][..bounds.size];
+        convolve_wide_pixel::<AR30_TYPE, AR30_ORDER>(
+            &src[bounds.start * 4..],
+            4,
+            &mut dst[x * 4..x * 4 + 4],
+            weights,
+        );
+    }
+}
+
+/// Computes a row whose weights do not fit into fixed point
+fn convolve_wide_row<const AR30_TYPE: usize, const AR30_ORDER: usize>(
+    bounds: &FilterBounds,
+    src: &[u8],
+    dst: &mut [u8],
+    src_stride: usize,
+    weights: &[f32],
+) {
+    for (x, dst) in dst.chunks_exact_mut(4).enumerate() {
+        convolve_wide_pixel::<AR30_TYPE, AR30_ORDER>(
+            &src[bounds.start * src_stride + x * 4..],
+            src_stride,
+            dst,
+            &weights[..bounds.size],
+        );
     }
 }
 
@@ -207,6 +291,7 @@ pub(crate) fn convolve_vertical_dispatch_ar30<const AR30_TYPE: usize, const AR30
 ) {
     #[cfg(all(target_arch = "aarch64", target_feature = "neon", feature = "rdm"))]
     let is_rdm_available = std::arch::is_aarch64_feature_detected!("rdm");
+    let wide = filter_weights.fixed_point_overflows();
     if let Some(pool) = pool {
         pool.install(|| {
             let approx = filter_weights.numerical_approximation_i16::<PRECISION>(0);
@@ -216,6 +301,15 @@ pub(crate) fn convolve_vertical_dispatch_ar30<const AR30_TYPE: usize, const AR30
                     let bounds = approx.bounds[y];
                     let filter_offset = y * approx.aligned_size;
                     let weights = &approx.weights[filter_offset..];
+                    if wide.binary_search(&y).is_ok() {
+                        return convolve_wide_row::<AR30_TYPE, AR30_ORDER>(
+                            &bounds,
+                            src,
+                            &mut row[0..4 * width],
+                            src_stride,
+                            &filter_weights.weights[y * filter_weights.aligned_size..],
+                        );
+                    }
                     let mut _dispatch: fn(&FilterBounds, &[u8], &mut [u8], usize, &[i16]) =
                         column_handler_fixed_point_ar30::<AR30_TYPE, AR30_ORDER>;
                     #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
@@ -273,6 +367,15 @@ pub(crate) fn convolve_vertical_dispatch_ar30<const AR30_TYPE: usize, const AR30
                 let bounds = approx.bounds[y];
                 let filter_offset = y * approx.aligned_size;
                 let weights = &approx.weights[filter_offset..];
+                if wide.binary_search(&y).is_ok() {
+                    return convolve_wide_row::<AR30_TYPE, AR30_ORDER>(
+                        &bounds,
+                        src,
+                        &mut row[0..4 * width],
+                        src_stride,
+                        &filter_weights.weights[y * filter_weights.aligned_size..],
+                    );
+                }
 
                 let mut _dispatch: fn(&FilterBounds, &[u8], &mut [u8], usize, &[i16]) =
                     column_handler_fixed_point_ar30::<AR30_TYPE, AR30_ORDER>;
diff --git a/src/dispatch_group_u8.rs b/src/dispatch_group_u8.rs
index 32f52d4..fcebc10 100644
--- a/src/dispatch_group_u8.rs
+++ b/src/dispatch_group_u8.rs
@@ -45,6 +45,7 @@ pub(crate) fn convolve_horizontal_dispatch_u8<V: Send + Sync, const CHANNELS: us
     weights_converter: impl WeightsConverter<V>,
 ) {
     let approx_weights = weights_converter.prepare_weights(&filter_weights);
+    let wide = filter_weights.fixed_point_overflows();
 
     let src = image_store.buffer.as_ref();
 
@@ -57,7 +58,7 @@ pub(crate) fn convolve_horizontal_dispatch_u8<V: Send + Sync, const CHANNELS: us
     if let Some(pool) = pool {
         let arc_weights = Arc::new(approx_weights);
         pool.install(|| {
-            let mut rem = dst;
+            let mut rem = &mut *dst;
             let mut src_rem = src;
             if let Some(dispatcher_4) = dispatcher_4_rows {
                 rem.par_chunks_exact_mut(dst_stride * 4)
@@ -75,9 +76,17 @@ pub(crate) fn convolve_horizontal_dispatch_u8<V: Send + Sync, const CHANNELS: us
                 .for_each(|(dst, src)| {
                     dispatcher_1_row(src, dst, &arc_weights);
                 });
+
+            if !wide.is_empty() {
+                dst.par_chunks_exact_mut(dst_stride)
+                    .zip(src.par_chunks_exact(src_stride))
+                    .for_each(|(dst, src)| {
+                        convolve_wide_columns::<CHANNELS>(src, dst, &filter_weights, &wide);
+                    });
+            }
         });
     } else {
-        let mut rem = dst;
+        let mut rem = &mut *dst;
         let mut src_rem = src;
         if let Some(dispatcher_4) = dispatcher_4_rows {
             rem.chunks_exact_mut(dst_stride * 4)
@@ -95,6 +104,58 @@ pub(crate) fn convolve_horizontal_dispatch_u8<V: Send + Sync, const CHANNELS: us
             .for_each(|(dst, src)| {
                 dispatcher_1_row(src, dst, &approx_weights);
             });
+
+        if !wide.is_empty() {
+            dst.chunks_exact_mut(dst_stride)
+                .zip(src.chunks_exact(src_stride))
+                .for_each(|(dst, src)| {
+                    convolve_wide_columns::<CHANNELS>(src, dst, &filter_weights, &wide);
+                });
+        }
+    }
+}
+
+/// Recomputes the columns whose weights do not fit into fixed point
+fn convolve_wide_columns<const CHANNELS: usize>(
+    src: &[u8],
+    dst: &mut [u8],
+    filter_weights: &FilterWeights<f32>,
+    columns: &[usize],
+) {
+    for &x in columns {
+        let bounds = filter_weights.bounds[x];
+        let weights = &filter_weights.weights[x * filter_weights.aligned_size..][..bounds.size];
+        let src = &src[bounds.start * CHANNELS..];
+        let dst = &mut dst[x * CHANNELS..(x + 1) * CHANNELS];
+        for (c, dst) in dst.iter_mut().enumerate() {
+            let sum = weights
+                .iter()
+                .zip(src[c..].iter().step_by(CHANNELS))
+                .fold(0f32, |sum, (&weight, &px)| sum + weight * px as f32);
+            *dst = sum.round() as u8;
+        }
+    }
+}
+
+/// Computes a row whose weights do not fit into fixed point
+fn convolve_wide_row(
+    bounds: &FilterBounds,
+    src: &[u8],
+    dst: &mut [u8],
+    src_stride: usize,
+    weights: &[f32],
+) {
+    for (x, dst) in dst.iter_mut().enumerate() {
+        let sum = weights
+            .iter()
+            .take(bounds.size)
+            .zip(
+                src[bounds.start * src_stride + x..]
+                    .iter()
+                    .step_by(src_stride),
+            )
+            .fold(0f32, |sum, (&weight, &px)| sum + weight * px as f32);
+        *dst = sum.round() as u8;
     }
 }
 
@@ -111,6 +172,7 @@ pub(crate) fn convolve_vertical_dispatch_u8<'a, V: Copy + Send + Sync, const COM
     let dst_stride = destination.stride();
 
     let dst_width = destination.width;
+    let wide = filter_weights.fixed_point_overflows();
 
     if let Some(pool) = pool {
         let approx = weights_converter.prepare_weights(&filter_weights);
@@ -124,6 +186,15 @@ pub(crate) fn convolve_vertical_dispatch_u8<'a, V: Copy + Send + Sync, const COM
                     let filter_offset = y * filter_weights.aligned_size;
                     let weights = &approx.weights[filter_offset..];
                     let source_buffer = image_store.buffer.as_ref();
+                    if wide.binary_search(&y).is_ok() {
+                        return convolve_wide_row(
+                            &bounds,
+                            source_buffer,
+                            &mut row[..dst_width * COMPONENTS],
+                            src_stride,
+                            &filter_weights.weights[filter_offset..],
+                        );
+                    }
                     dispatcher(
                         dst_width,
                         &bounds,
@@ -145,6 +216,15 @@ pub(crate) fn convolve_vertical_dispatch_u8<'a, V: Copy + Send + Sync, const COM
                 let filter_offset = y * filter_weights.aligned_size;
                 let weights = &approx.weights[filter_offset..];
                 let source_buffer = image_store.buffer.as_ref();
+                if wide.binary_search(&y).is_ok() {
+                    return convolve_wide_row(
+                        &bounds,
+                        source_buffer,
+                        &mut row[..dst_width * COMPONENTS],
+                        src_stride,
+                        &filter_weights.weights[filter_offset..],
+                    );
+                }
                 dispatcher(
                     dst_width,
                     &bounds,
-- 
2.43.0


From 73e29663fd3e12503d1b34cd41e6b4c6ea502061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:41 +0000
Subject: [PATCH 27/38] fix: nearest sampling picked the pixel left of the
 sample position instead of the closest

---
 src/nearest_sampler.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nearest_sampler.rs b/src/nearest_sampler.rs
index 794df60..53cf40c 100644
--- a/src/nearest_sampler.rs
+++ b/src/nearest_sampler.rs
@@ -58,10 +58,10 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
                         .chunks_exact_mut(CHANNELS)
                         .enumerate()
                     {
-                        let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
+                        let src_x = (((x as f32 + 0.5f32) * x_scale).ceil() - 1f32)
                             .min(clip_width)
                             .max(0f32) as usize;
-                        let src_y = ((y as f32 + 0.5f32) * y_scale - 0.5f32)
+                        let src_y = (((y as f32 + 0.5f32) * y_scale).ceil() - 1f32)
                             .min(clip_height)
                             .max(0f32) as usize;
                         let src_offset_y = src_y * src_stride;
@@ -84,10 +84,10 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
                     .chunks_exact_mut(CHANNELS)
                     .enumerate()
                 {
-                    let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
+                    let src_x = (((x as f32 + 0.5f32) * x_scale).ceil() - 1f32)
                         .min(clip_width)
                         .max(0f32) as usize;
-                    let src_y = ((y as f32 + 0.5f32) * y_scale - 0.5f32)
+                    let src_y = (((y as f32 + 0.5f32) * y_scale).ceil() - 1f32)
                         .min(clip_height)
                         .max(0f32) as usize;
                     let src_offset_y = src_y * src_stride;
-- 
2.43.0


From d0d5546110c92890b9c1a5dba64e1d62edeef4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 28/38] fix: filter windows were not centred, so the rightmost
 sample was lost at half of the positions

---
 src/scaler.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scaler.rs b/src/scaler.rs
index 6befafa..d3540d1 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -410,9 +410,13 @@ impl Scaler {
                 let mut weights_sum: T = 0f32.as_();
                 let mut local_filter_iteration = 0usize;
 
-                let start: usize = (center_x - filter_radius).floor().max(0f32.as_()).as_();
+                let start: usize = (center_x - filter_radius)
+                    .round()
+                    .max(0f32.as_())
+                    .min(in_size.as_() - 1f32.as_())
+                    .as_();
                 let end: usize = (center_x + filter_radius)
-                    .ceil()
+                    .round()
                     .min(start.as_() + kernel_size.as_())
                     .min(in_size.as_())
                     .as_();
-- 
2.43.0


From 444b78768c368b36d31913e596ddbeb78caae3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 29/38] fix: Area did not average the covered source samples
 when shrinking

---
 src/scaler.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/scaler.rs b/src/scaler.rs
index d3540d1..4ab19cf 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -383,10 +383,43 @@ impl Scaler {
         let resampling_function = resampling_filter.kernel;
 
         let is_area = resampling_filter.is_area && scale < 1.as_();
+        let is_area_coverage = resampling_filter.is_area && !is_area;
 
         let mut bounds: Vec<FilterBounds> = vec![FilterBounds::new(0, 0); out_size];
 
-        if !is_area {
+        if is_area_coverage {
+            // Shrinking by INTER_AREA: every source sample counts with the part of it
+            // that is covered by the output sample
+            let kernel_size = in_size.div_ceil(out_size) + 1;
+            let mut weights: Vec<T> = vec![T::default(); kernel_size * out_size];
+
+            // Positions are measured in 1/out_size of a source sample, an output sample being in_size
+            let (step, unit) = (in_size as u64, out_size as u64);
+            for ((i, bound), weights) in bounds
+                .iter_mut()
+                .enumerate()
+                .zip(weights.chunks_exact_mut(kernel_size))
+            {
+                let left = i as u64 * step;
+                let right = left + step;
+                let start = (left / unit) as usize;
+                let end = right.div_ceil(unit) as usize;
+                *bound = FilterBounds::new(start, end - start);
+                for (k, weight) in (start as u64..).zip(weights.iter_mut().take(end - start)) {
+                    let covered = right.min((k + 1) * unit) - left.max(k * unit);
+                    *weight = (covered as usize).as_() / in_size.as_();
+                }
+            }
+
+            FilterWeights::<T>::new(
+                weights,
+                kernel_size,
+                kernel_size,
+                out_size,
+                (kernel_size.as_() / 2f32.as_()).as_(),
+                bounds,
+            )
+        } else if !is_area {
             let window_func = resampling_filter.window;
             let base_size: usize = (filter_base_size.as_() * filter_scale_cutoff).round().as_();
             let kernel_size = base_size;
-- 
2.43.0


From 37c6839c275b31eb0994375ed68e68ade9733741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:59 +0000
Subject: [PATCH 30/38] fix: jinc kernels gave no weight to a sample exactly at
 the sampling position

---
 src/math/bessel_order_one.rs | 4 ++--
 src/math/lanczos.rs          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/bessel_order_one.rs b/src/math/bessel_order_one.rs
index 5193d70..aaa1626 100644
--- a/src/math/bessel_order_one.rs
+++ b/src/math/bessel_order_one.rs
@@ -320,7 +320,7 @@ fn qone(x: f64) -> f64 {
 #[inline]
 pub fn jinc_f64(x: f64) -> f64 {
     if x == 0f64 {
-        return 0f64;
+        return 0.5f64;
     }
     j1(x) / x
 }
@@ -328,7 +328,7 @@ pub fn jinc_f64(x: f64) -> f64 {
 #[inline]
 pub fn jinc_f32(x: f32) -> f32 {
     if x == 0f32 {
-        return 0f32;
+        return 0.5f32;
     }
     (j1(x as f64) / x as f64) as f32
 }
diff --git a/src/math/lanczos.rs b/src/math/lanczos.rs
index e5d255a..ead1bb6 100644
--- a/src/math/lanczos.rs
+++ b/src/math/lanczos.rs
@@ -45,7 +45,7 @@ where
     f64: AsPrimitive<V>,
 {
     let scale_a: V = 1f32.as_() / a;
-    if x == 0f32.as_() || x > 16.247661874700962f32.as_() {
+    if x > 16.247661874700962f32.as_() {
         return 0f32.as_();
     }
     if x.abs() < a {
-- 
2.43.0


From 348b223666f460827d2ac5da341efd9bb9420fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 31/38] fix: Bartlett, Bartlett-Hann and Blackman kernels gave
 the closest sample no weight

---
 src/math/bartlett.rs | 12 ++++++------
 src/math/blackman.rs |  3 ++-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/math/bartlett.rs b/src/math/bartlett.rs
index 1eb3071..d862f3f 100644
--- a/src/math/bartlett.rs
+++ b/src/math/bartlett.rs
@@ -38,10 +38,10 @@ pub(crate) fn bartlett<V: Copy + Sub<Output = V> + Mul<Output = V> + 'static + P
 where
     f32: AsPrimitive<V>,
 {
-    if x >= 0f32.as_() && x <= 1f32.as_() {
-        return 2f32.as_() * x;
+    if x < 1f32.as_() {
+        return 1f32.as_() - x;
     }
-    2f32.as_() - 2f32.as_() * x
+    0f32.as_()
 }
 
 #[inline(always)]
@@ -54,10 +54,10 @@ where
     f32: AsPrimitive<V>,
 {
     let x = x.abs();
-    if x > 2f32.as_() {
+    if x > 1f32.as_() {
         return 0f32.as_();
     }
-    let l = 2.0f32.as_();
-    let fac = (x / (l - 1.0f32.as_()) - 0.5f32.as_()).abs();
+    // Distance to the middle of a window of unit length
+    let fac = x * 0.5f32.as_();
     0.62f32.as_() - 0.4832.as_() * fac + 0.38f32.as_() * (2f32.as_() * V::const_pi() * fac).cos()
 }
diff --git a/src/math/blackman.rs b/src/math/blackman.rs
index b741774..19e637b 100644
--- a/src/math/blackman.rs
+++ b/src/math/blackman.rs
@@ -49,7 +49,8 @@ where
 {
     let x = x.abs();
     if x < 2.0f32.as_() {
-        sinc(x) * blackman_window(x / 2f32.as_())
+        // The window is defined on 0..1 with its middle at 0.5
+        sinc(V::const_pi() * x) * blackman_window(x / 4f32.as_() + 0.5f32.as_())
     } else {
         0f32.as_()
     }
-- 
2.43.0


From 3aaf254f32a3cd9932d872e95ef1e1ead48b5791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:31 +0000
Subject: [PATCH 32/38] fix: the Gaussian kernel was not a Gaussian

---
 src/math/gaussian.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/math/gaussian.rs b/src/math/gaussian.rs
index 7a1f371..40c16b9 100644
--- a/src/math/gaussian.rs
+++ b/src/math/gaussian.rs
@@ -42,7 +42,6 @@ where
 {
     let sigma: V = 0.35f32.as_();
     let pi = V::const_pi();
-    let mut den = 2f32.as_() * sigma * sigma;
-    den *= den;
-    (1f32.as_() / ((2f32.as_() * pi).sqrt() * sigma)) * (-x / den).exp()
+    let den = 2f32.as_() * sigma * sigma;
+    (1f32.as_() / ((2f32.as_() * pi).sqrt() * sigma)) * (-x * x / den).exp()
 }
-- 
2.43.0


From ae21b9736cb7ecd04bb45b5d69e7ebfa1889ac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 33/38] fix: refuse AR30 and RA30 strides whose product with
 the height overflows

---
 src/resize_ar30.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index f58c7b0..6385ac1 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -56,9 +56,13 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         return Err(PicScaleError::DestinationImageIsTooLarge);
     }
 
-    if src.len() != src_stride * src_size.height {
+    let expected_src_size = match src_stride.checked_mul(src_size.height) {
+        None => return Err(PicScaleError::SourceImageIsTooLarge),
+        Some(size) => size,
+    };
+    if src.len() != expected_src_size {
         return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
-            expected: src_stride * src_size.height,
+            expected: expected_src_size,
             width: src_size.width,
             height: src_size.height,
             channels: 4,
@@ -69,9 +73,13 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         return Err(PicScaleError::InvalidStride(src_size.width * 4, src_stride));
     }
 
-    if dst.len() != dst_stride * dst_size.height {
+    let expected_dst_size = match dst_stride.checked_mul(dst_size.height) {
+        None => return Err(PicScaleError::DestinationImageIsTooLarge),
+        Some(size) => size,
+    };
+    if dst.len() != expected_dst_size {
         return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
-            expected: dst_stride * dst_size.height,
+            expected: expected_dst_size,
             width: dst_size.width,
             height: dst_size.height,
             channels: 4,
-- 
2.43.0


From fa04af1e05aef835436414b6a75e501a377674dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:58 +0000
Subject: [PATCH 34/38] fix: refuse image sizes that overflow when wrapping a
 buffer into a store

---
 src/image_store.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/image_store.rs b/src/image_store.rs
index a3f23a0..1f053d7 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -132,6 +132,9 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStore<'a, T, N>, PicScaleError> {
+        if check_image_size_overflow(width, height, N) {
+            return Err(PicScaleError::SourceImageIsTooLarge);
+        }
         let expected_size = width * height * N;
         if slice_ref.len() != width * height * N {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
@@ -157,6 +160,9 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStore<'a, T, N>, PicScaleError> {
+        if check_image_size_overflow(width, height, N) {
+            return Err(PicScaleError::SourceImageIsTooLarge);
+        }
         let expected_size = width * height * N;
         if slice_ref.len() != width * height * N {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
@@ -283,6 +289,9 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStoreMut<'a, T, N>, PicScaleError> {
+        if check_image_size_overflow(width, height, N) {
+            return Err(PicScaleError::DestinationImageIsTooLarge);
+        }
         let expected_size = width * height * N;
         if slice_ref.len() != width * height * N {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
@@ -311,6 +320,9 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStoreMut<'a, T, N>, PicScaleError> {
+        if check_image_size_overflow(width, height, N) {
+            return Err(PicScaleError::DestinationImageIsTooLarge);
+        }
         let expected_size = width * height * N;
         if slice_ref.len() != width * height * N {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
@@ -417,6 +429,9 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStore<'a, T, N>, PicScaleError> {
+        if check_image_size_overflow(width, height, N) {
+            return Err(PicScaleError::SourceImageIsTooLarge);
+        }
         let expected_size = width * height * N;
         if slice_ref.len() != width * height * N {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
@@ -484,6 +499,9 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStoreMut<'a, T, N>, PicScaleError> {
+        if check_image_size_overflow(width, height, N) {
+            return Err(PicScaleError::DestinationImageIsTooLarge);
+        }
         let expected_size = width * height * N;
         if slice_ref.len() != width * height * N {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
-- 
2.43.0


From 265edbc834aeda91a1faef8a901fbc99e15f4040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 35/38] fix: sample positions lost precision on large images

Positions along an axis, and their distances to the pixels they weigh, were
computed in single precision: with thousands of pixels the weights were off
by several steps of an 8-bit channel and far more for 16-bit and float ones.
They are computed in double precision now and rounded once the (small)
distance is known.
---
 src/scaler.rs | 57 ++++++++++++++++++++++-----------------------------
 1 file changed, 24 insertions(+), 33 deletions(-)

diff --git a/src/scaler.rs b/src/scaler.rs
index 4ab19cf..5d557e8 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -373,11 +373,13 @@ impl Scaler {
         usize: AsPrimitive<T>,
     {
         let resampling_filter = self.function.get_resampling_filter();
-        let scale = in_size.as_() / out_size.as_();
+        // Positions are as large as the image: they, and distances between them, need double precision
+        let position_scale = in_size as f64 / out_size as f64;
+        let scale: T = position_scale.as_();
         let is_resizable_kernel = resampling_filter.is_resizable_kernel;
         let filter_scale_cutoff = match is_resizable_kernel {
-            true => scale.max(1f32.as_()),
-            false => 1f32.as_(),
+            true => position_scale.max(1f64),
+            false => 1f64,
         };
         let filter_base_size = resampling_filter.min_kernel_size;
         let resampling_function = resampling_filter.kernel;
@@ -421,10 +423,10 @@ impl Scaler {
             )
         } else if !is_area {
             let window_func = resampling_filter.window;
-            let base_size: usize = (filter_base_size.as_() * filter_scale_cutoff).round().as_();
+            let base_size = (filter_base_size as f64 * filter_scale_cutoff).round() as usize;
             let kernel_size = base_size;
-            let filter_radius = base_size.as_() / 2.as_();
-            let filter_scale = 1f32.as_() / filter_scale_cutoff;
+            let filter_radius = base_size as f64 / 2f64;
+            let filter_scale: T = (1f64 / filter_scale_cutoff).as_();
             let mut weights: Vec<T> = vec![T::default(); kernel_size * out_size];
             let mut local_filters = vec![T::default(); kernel_size];
             let mut filter_position = 0usize;
@@ -439,25 +441,23 @@ impl Scaler {
                 }
             };
             for (i, bound) in bounds.iter_mut().enumerate() {
-                let center_x = ((i.as_() + 0.5.as_()) * scale).min(in_size.as_());
+                let center_x = ((i as f64 + 0.5) * position_scale).min(in_size as f64);
                 let mut weights_sum: T = 0f32.as_();
                 let mut local_filter_iteration = 0usize;
 
-                let start: usize = (center_x - filter_radius)
+                let start = (center_x - filter_radius)
                     .round()
-                    .max(0f32.as_())
-                    .min(in_size.as_() - 1f32.as_())
-                    .as_();
-                let end: usize = (center_x + filter_radius)
+                    .max(0f64)
+                    .min(in_size as f64 - 1f64) as usize;
+                let end = (center_x + filter_radius)
                     .round()
-                    .min(start.as_() + kernel_size.as_())
-                    .min(in_size.as_())
-                    .as_();
+                    .min((start + kernel_size) as f64)
+                    .min(in_size as f64) as usize;
 
-                let center = center_x - 0.5.as_();
+                let center = center_x - 0.5;
 
                 for k in start..end {
-                    let dx = k.as_() - center;
+                    let dx: T = (k as f64 - center).as_();
                     let weight;
                     if let Some(resampling_window) = window_func {
                         let mut x = dx.abs();
@@ -529,14 +529,14 @@ impl Scaler {
                 kernel_size,
                 kernel_size,
                 out_size,
-                filter_radius.as_(),
+                filter_radius as i32,
                 bounds,
             )
         } else {
             // Simulating INTER_AREA from OpenCV, for up scaling here,
             // this is necessary because weight computation is different
             // from any other func
-            let inv_scale: T = 1.as_() / scale;
+            let inv_scale = 1f64 / position_scale;
             let kernel_size = 2;
             let filter_radius: T = 1.as_();
             let mut weights: Vec<T> = vec![T::default(); kernel_size * out_size];
@@ -546,25 +546,16 @@ impl Scaler {
             for (i, bound) in bounds.iter_mut().enumerate() {
                 let mut weights_sum: T = 0f32.as_();
 
-                let sx: T = (i.as_() * scale).floor();
-                let fx = (i as i64 + 1).as_() - (sx + 1.as_()) * inv_scale;
-                let dx = if fx <= 0.as_() {
-                    0.as_()
-                } else {
-                    fx - fx.floor()
-                };
-                let dx = dx.abs();
+                let start = (i as u64 * in_size as u64 / out_size as u64) as usize;
+                let fx = (i + 1) as f64 - (start + 1) as f64 * inv_scale;
+                let dx = if fx <= 0. { 0. } else { fx - fx.floor() };
+                let dx: T = dx.as_();
                 let weight0 = 1.as_() - dx;
                 let weight1: T = dx;
                 local_filters[0] = weight0;
                 local_filters[1] = weight1;
 
-                let start: usize = sx.floor().max(0f32.as_()).as_();
-                let end: usize = (sx + kernel_size.as_())
-                    .ceil()
-                    .min(start.as_() + kernel_size.as_())
-                    .min(in_size.as_())
-                    .as_();
+                let end = (start + kernel_size).min(in_size);
 
                 let size = end - start;
 
-- 
2.43.0


From 6f91b9216106d97cfb59c4dd679a528b3eb69be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 36/38] fix: f16 vertical pass without SIMD converted the whole
 image for each row

The portable column handler widened every source row to f32 for each
destination row, so its work and scratch memory grew with the square of the
image height. Only rows under the kernel are converted now.
---
 src/f16.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/f16.rs b/src/f16.rs
index 6130e7b..4d873ab 100644
--- a/src/f16.rs
+++ b/src/f16.rs
@@ -211,10 +211,16 @@ fn convolve_vertical_rgb_native_row_f16(
     src_stride: usize,
     weight: &[f32],
 ) {
-    let transient_src = src.iter().map(|&x| x as f32).collect::<Vec<f32>>();
+    // Only rows under the kernel are needed
+    let window_start = (bounds.start * src_stride).min(src.len());
+    let window_end = ((bounds.start + bounds.size) * src_stride).min(src.len());
+    let transient_src = src[window_start..window_end]
+        .iter()
+        .map(|&x| x as f32)
+        .collect::<Vec<f32>>();
     let mut transient_dst = vec![0f32; dst.len()];
     column_handler_floating_point::<f32, f32, f32>(
-        bounds,
+        &FilterBounds::new(0, bounds.size),
         &transient_src,
         &mut transient_dst,
         src_stride,
-- 
2.43.0


From 2dbb6db1c586a7d2799761a34319bc6450fee513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:46 +0000
Subject: [PATCH 37/38] fix: nearest sampling missed the nearest sample on
 images of thousands of pixels

---
 src/nearest_sampler.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/nearest_sampler.rs b/src/nearest_sampler.rs
index 53cf40c..18ba7fb 100644
--- a/src/nearest_sampler.rs
+++ b/src/nearest_sampler.rs
@@ -43,11 +43,12 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
     dst_height: usize,
     pool: &Option<ThreadPool>,
 ) {
-    let x_scale = src_width as f32 / dst_width as f32;
-    let y_scale = src_height as f32 / dst_height as f32;
+    // Single precision cannot tell apart positions on images of a few thousand pixels
+    let x_scale = src_width as f64 / dst_width as f64;
+    let y_scale = src_height as f64 / dst_height as f64;
 
-    let clip_width = src_width as f32 - 1f32;
-    let clip_height = src_height as f32 - 1f32;
+    let clip_width = src_width as f64 - 1f64;
+    let clip_height = src_height as f64 - 1f64;
 
     if let Some(pool) = pool {
         pool.install(|| {
@@ -58,12 +59,12 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
                         .chunks_exact_mut(CHANNELS)
                         .enumerate()
                     {
-                        let src_x = (((x as f32 + 0.5f32) * x_scale).ceil() - 1f32)
+                        let src_x = (((x as f64 + 0.5f64) * x_scale).ceil() - 1f64)
                             .min(clip_width)
-                            .max(0f32) as usize;
-                        let src_y = (((y as f32 + 0.5f32) * y_scale).ceil() - 1f32)
+                            .max(0f64) as usize;
+                        let src_y = (((y as f64 + 0.5f64) * y_scale).ceil() - 1f64)
                             .min(clip_height)
-                            .max(0f32) as usize;
+                            .max(0f64) as usize;
                         let src_offset_y = src_y * src_stride;
                         let src_px = src_x * CHANNELS;
                         let offset = src_offset_y + src_px;
@@ -84,12 +85,12 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
                     .chunks_exact_mut(CHANNELS)
                     .enumerate()
                 {
-                    let src_x = (((x as f32 + 0.5f32) * x_scale).ceil() - 1f32)
+                    let src_x = (((x as f64 + 0.5f64) * x_scale).ceil() - 1f64)
                         .min(clip_width)
-                        .max(0f32) as usize;
-                    let src_y = (((y as f32 + 0.5f32) * y_scale).ceil() - 1f32)
+                        .max(0f64) as usize;
+                    let src_y = (((y as f64 + 0.5f64) * y_scale).ceil() - 1f64)
                         .min(clip_height)
-                        .max(0f32) as usize;
+                        .max(0f64) as usize;
                     let src_offset_y = src_y * src_stride;
                     let src_px = src_x * CHANNELS;
                     let offset = src_offset_y + src_px;
-- 
2.43.0


From d1ecb3d00b68fb6929b5a3f52f6c285289d9ca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:46 +0000
Subject: [PATCH 38/38] fix: sigmoidal conversion of an RGB image read past the
 end of the source

---
 src/colors/sigmoidal_scaler.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/colors/sigmoidal_scaler.rs b/src/colors/sigmoidal_scaler.rs
index 48d54c5..ed37d36 100644
--- a/src/colors/sigmoidal_scaler.rs
+++ b/src/colors/sigmoidal_scaler.rs
@@ -98,13 +98,34 @@ impl Scaling for SigmoidalScaler {
 
         let lab_stride =
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let width = lab_store.width as u32;
+        // the conversion may read a few bytes past the end of a row: the last one needs room
+        let last = store.height - 1;
+        let last_start = last * store.stride();
+        let mut last_row = vec![0u8; store.width * COMPONENTS + 16];
+        last_row[..store.width * COMPONENTS]
+            .copy_from_slice(&store.buffer[last_start..last_start + store.width * COMPONENTS]);
+        let (lab_head, lab_last) = lab_store
+            .buffer
+            .borrow_mut()
+            .split_at_mut(last * store.width * COMPONENTS);
+        if last > 0 {
+            rgb_to_sigmoidal(
+                store.buffer.as_ref(),
+                store.stride() as u32,
+                lab_head,
+                lab_stride,
+                width,
+                last as u32,
+            );
+        }
         rgb_to_sigmoidal(
-            store.buffer.as_ref(),
-            store.stride() as u32,
-            lab_store.buffer.borrow_mut(),
+            &last_row,
+            last_row.len() as u32,
+            lab_last,
             lab_stride,
-            lab_store.width as u32,
-            lab_store.height as u32,
+            width,
+            1,
         );
 
         let new_immutable_store = ImageStore::<f32, COMPONENTS> {
-- 
2.43.0

