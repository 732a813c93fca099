From dde19b801fe772a6131fa2c3574fcade7bdb0798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:28 +0000
Subject: [PATCH 01/39] fix: do not read past the part lengths once all parts
 are copied in nx_memncpy_multi

---
 src/nx_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_string.c b/src/nx_string.c
index a3acffc..1422c73 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -218,7 +218,7 @@ size_t nx_memncpy_multi(void *dest, int n_src, const void * const *src,
         NX_ASSERT_PTR(src_offset);
         NX_ASSERT_PTR(offset);
 
-        if (*offset > l_src[*src_offset]) {
+        if (*src_offset < n_src && *offset > l_src[*src_offset]) {
                 *offset = 0;
                 *src_offset += 1;
         }
-- 
2.43.0


From 394d5169d1293efd1ec719807f3f7e7d78b08740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 02/39] fix: return -1 from nx_getline at end of file

The terminating null was appended before the emptiness test, so the
test never held and end of file was reported as an empty line.
---
 src/nx_io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nx_io.c b/src/nx_io.c
index 45c6161..1359afb 100644
--- a/src/nx_io.c
+++ b/src/nx_io.c
@@ -197,9 +197,11 @@ ssize_t nx_getline(char **line, size_t *n, FILE *stream)
                 NX_EXPAND_IF_NECESSARY_AND_APPEND_CHAR(line,n,idx,c);
         }
 
+        NXBool is_empty = (idx == 0);
+
         NX_EXPAND_IF_NECESSARY_AND_APPEND_CHAR(line,n,idx,0);
 
-        if (idx == 0) {
+        if (is_empty) {
                 return -1;
         } else {
                 return idx - 1;
-- 
2.43.0


From 595db045d756bdb5cd512d4cb95d384a183b2129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 03/39] fix: reject a stored string length that overflows in
 nx_strread

A length field of SIZE_MAX made length + 1 wrap to zero, and the string
was then read into a zero-sized buffer.
---
 src/nx_string.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nx_string.c b/src/nx_string.c
index 1422c73..8de3035 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -120,6 +120,9 @@ int nx_strread(char **s, size_t size, FILE *stream)
         if (fread(&ls, sizeof(ls), 1, stream) != 1)
                 return 1;
 
+        if (ls == SIZE_MAX)
+                return 1;
+
         if (ls >= size)
                 *s = nx_xrealloc(*s, (ls+1)*sizeof(**s));
 
-- 
2.43.0


From 67c764328509ec2a985f6203bb4b24856a879235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:44 +0000
Subject: [PATCH 04/39] fix: skip unset elements in nx_string_array_find

Elements of a resized array are NULL until set; comparing against them
dereferenced a null pointer.
---
 src/nx_string_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index 68fff42..1ca16b5 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -179,7 +179,7 @@ int nx_string_array_find(const struct NXStringArray *sa, const char *s)
         NX_ASSERT_PTR(s);
 
         for (int i = 0; i < sa->size; ++i)
-                if (strcmp(s, sa->elems[i]) == 0)
+                if (sa->elems[i] && strcmp(s, sa->elems[i]) == 0)
                         return i;
 
         return -1;
-- 
2.43.0


From d9691282e3d10ec527e883f95ef39d2d124741c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:44 +0000
Subject: [PATCH 05/39] fix: reject a negative length in nx_string_array_read

---
 src/nx_string_array.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index 1ca16b5..65c0e57 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -222,6 +222,11 @@ int nx_string_array_read(struct NXStringArray *sa, FILE *stream)
                 return -1;
         }
 
+        if (size < 0) {
+                NX_ERROR(NX_LOG_TAG, "Invalid string array length %d in stream", size);
+                return -1;
+        }
+
         nx_string_array_resize(sa, size);
         for (int i = 0; i < sa->size; ++i)
                 if (nx_strread(&sa->elems[i], 0, stream) != 0) {
-- 
2.43.0


From 52693e1005d2b8594f8fff4cd46b03963a4a4b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:19 +0000
Subject: [PATCH 06/39] fix: multiply by the transpose of K' in
 nx_essential_from_fundamental

---
 src/nx_epipolar.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index 1273bb1..f503621 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -316,12 +316,12 @@ void nx_essential_from_fundamental(double *E, const double *F,
         E[0] = Kp[0]*Fk[0];
         E[3] = Kp[0]*Fk[3];
         E[6] = Kp[0]*Fk[6];
-        E[1] = Kp[1]*Fk[0] + Kp[4]*Fk[1];
-        E[4] = Kp[1]*Fk[3] + Kp[4]*Fk[4];
-        E[7] = Kp[1]*Fk[6] + Kp[4]*Fk[7];
-        E[2] = Kp[2]*Fk[0] + Kp[5]*Fk[1] + Fk[2];
-        E[5] = Kp[2]*Fk[3] + Kp[5]*Fk[4] + Fk[5];
-        E[8] = Kp[2]*Fk[6] + Kp[5]*Fk[7] + Fk[8];
+        E[1] = Kp[3]*Fk[0] + Kp[4]*Fk[1];
+        E[4] = Kp[3]*Fk[3] + Kp[4]*Fk[4];
+        E[7] = Kp[3]*Fk[6] + Kp[4]*Fk[7];
+        E[2] = Kp[6]*Fk[0] + Kp[7]*Fk[1] + Fk[2];
+        E[5] = Kp[6]*Fk[3] + Kp[7]*Fk[4] + Fk[5];
+        E[8] = Kp[6]*Fk[6] + Kp[7]*Fk[7] + Fk[8];
 }
 
 
-- 
2.43.0


From 8416f35dc35f5d987066122bc74c7abdeff82b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:19 +0000
Subject: [PATCH 07/39] fix: do not write more than n_pt points in
 nx_pinhole_triangulate

---
 src/nx_pinhole.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_pinhole.c b/src/nx_pinhole.c
index 138ff35..438b32b 100644
--- a/src/nx_pinhole.c
+++ b/src/nx_pinhole.c
@@ -144,7 +144,7 @@ int nx_pinhole_triangulate(int n_pt, float *X, int *corr_ids,
         double U[16];
         double S[4];
         int pt_i = 0;
-        for (int i = 0; i < n_corr; ++i) {
+        for (int i = 0; i < n_corr && pt_i < n; ++i) {
                 if (corr_list[i].is_inlier) {
                         nx_triangulation_constraints_from_corr(&A[0],
                                                                corr_list + i,
-- 
2.43.0


From 108b240e4cc42d332d0f7973a2ccb638328c3030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:19 +0000
Subject: [PATCH 08/39] fix: draw four distinct correspondences for a
 homography hypothesis

---
 src/nx_homography.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index eb8d915..46c6195 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -270,7 +270,7 @@ static inline void nx_select_prosac_candidates(int n_top, int corr_ids[4])
 
         do {
             corr_ids[3] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
-        } while(corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[0]);
+        } while(corr_ids[3]==corr_ids[2] || corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[0]);
 }
 
 int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *corr_list, double inlier_tolerance, int max_n_iter)
-- 
2.43.0


From 3df521831bb6e3fc29879428be7079923e71d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:19 +0000
Subject: [PATCH 09/39] fix: draw eight distinct correspondences for a
 fundamental matrix hypothesis

---
 src/nx_epipolar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index f503621..d4b7896 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -195,7 +195,7 @@ static inline void nx_select_prosac_candidates(int n_top, int corr_ids[8])
         corr_ids[0] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
         for (int i = 1; i < 8; ++i) {
                 corr_ids[i] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
-                for (int j = i-1; j > 0; --j)
+                for (int j = i-1; j >= 0; --j)
                         if (corr_ids[i] == corr_ids[j]) {
                                 --i;
                                 break;
-- 
2.43.0


From 00dca1225ba321fe093369ee56ea0dc1d9a5f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:19 +0000
Subject: [PATCH 10/39] fix: do not use an uninitialized matrix when no
 homography hypothesis has inliers

---
 src/nx_homography.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index 46c6195..50f53f3 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -277,7 +277,7 @@ int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *
 {
         double min_angle = 15.0 * NX_PI / 180.0;
         double max_abs_cos = fabs(cos(min_angle));
-        double h_best[9];
+        double h_best[9] = { 0.0 };
         int n_inliers_best = 0;
         int n_inliers = 0;
         int corr_ids[4];
-- 
2.43.0


From eed8e549d751465710d50c9cc0e27f5dfeca6574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:19 +0000
Subject: [PATCH 11/39] fix: do not use an uninitialized matrix when no
 fundamental hypothesis has inliers

---
 src/nx_epipolar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index d4b7896..42bba4a 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -210,7 +210,7 @@ int nx_fundamental_estimate_ransac(double *F, int n_corr,
         NX_ASSERT_PTR(F);
         NX_ASSERT_PTR(corr_list);
 
-        double F_best[9];
+        double F_best[9] = { 0.0 };
         int n_inliers_best = 0;
         int n_inliers = 0;
         int corr_ids[8];
-- 
2.43.0


From 8502f9e8f5c2ee622dd203e22503427d576e7cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:31 +0000
Subject: [PATCH 12/39] fix: keep single precision uniform samples below 1

---
 src/nx_uniform_sampler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nx_uniform_sampler.c b/src/nx_uniform_sampler.c
index fa94b8f..732e887 100644
--- a/src/nx_uniform_sampler.c
+++ b/src/nx_uniform_sampler.c
@@ -25,6 +25,7 @@
  */
 #include "virg/nexus/nx_uniform_sampler.h"
 
+#include <float.h>
 #include <stdlib.h>
 #include <time.h>
 
@@ -113,7 +114,9 @@ void nx_uniform_sampler_fill64(struct NXUniformSampler *sampler, int n, uint64_t
 
 float nx_uniform_sampler_sample_s(struct NXUniformSampler *sampler)
 {
-        return sfmt_genrand_real2(&sampler->state);
+        // rounding to single precision may reach 1, which is outside [0, 1)
+        float s = sfmt_genrand_real2(&sampler->state);
+        return s < 1.0f ? s : 1.0f - FLT_EPSILON / 2.0f;
 }
 
 double nx_uniform_sampler_sample_d(struct NXUniformSampler *sampler)
-- 
2.43.0


From d8cef7d85b36667e81b4d1ae16c70a2ac428871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:48 +0000
Subject: [PATCH 13/39] fix: reject a zero radius in the polar method of the
 Gaussian sampler

---
 src/nx_gaussian_sampler.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nx_gaussian_sampler.c b/src/nx_gaussian_sampler.c
index 0acab6b..24120e1 100644
--- a/src/nx_gaussian_sampler.c
+++ b/src/nx_gaussian_sampler.c
@@ -129,7 +129,7 @@ void nx_gaussian_sampler_sample_s(struct NXGaussianSampler *sampler,
                         v2 = 2.0f * u2 - 1.0f;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0f);
+                } while(s >= 1.0f || s == 0.0f);
 
                 common = sigma * sqrtf(-2.0f * logf(s) / s);
                 *s_ptr = common * v1 + mean;
@@ -147,7 +147,7 @@ void nx_gaussian_sampler_sample_s(struct NXGaussianSampler *sampler,
                         v2 = 2.0f * u2 - 1.0f;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0f);
+                } while(s >= 1.0f || s == 0.0f);
 
                 *s_ptr = sigma * sqrtf(-2.0f * logf(s) / s) * v1 + mean;
         }
@@ -174,7 +174,7 @@ void nx_gaussian_sampler_sample_d(struct NXGaussianSampler *sampler,
                         v2 = 2.0 * u2 - 1.0;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0);
+                } while(s >= 1.0 || s == 0.0);
 
                 common = sigma * sqrt(-2.0 * log(s) / s);
                 *s_ptr = common * v1 + mean;
@@ -192,7 +192,7 @@ void nx_gaussian_sampler_sample_d(struct NXGaussianSampler *sampler,
                         v2 = 2.0 * u2 - 1.0;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0);
+                } while(s >= 1.0 || s == 0.0);
 
                 *s_ptr = sigma * sqrt(-2.0 * log(s) / s) * v1 + mean;
         }
-- 
2.43.0


From 976df81330a725e8f8e4a0c951e57f8cebe14c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:52 +0000
Subject: [PATCH 14/39] fix: nx_compare_int_incr overflowed for operands of
 large magnitude

---
 include/virg/nexus/nx_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/virg/nexus/nx_math.h b/include/virg/nexus/nx_math.h
index 0ff585c..cb74556 100644
--- a/include/virg/nexus/nx_math.h
+++ b/include/virg/nexus/nx_math.h
@@ -102,7 +102,7 @@ int nx_compare_int_incr(const void *i0p, const void *i1p)
         int i0 = *(int *)i0p;
         int i1 = *(int *)i1p;
 
-        return i0 - i1;
+        return (i0 > i1) - (i0 < i1);
 }
 
 __NX_END_DECL
-- 
2.43.0


From c93c8fdab04c4a192f120f75eedb95fa7dbb79cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:52 +0000
Subject: [PATCH 15/39] fix: integer statistics overflowed averaging two large
 values

---
 src/nx_statistics.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nx_statistics.c b/src/nx_statistics.c
index 282ade1..491aea8 100644
--- a/src/nx_statistics.c
+++ b/src/nx_statistics.c
@@ -135,17 +135,17 @@ void nx_istatistics_1d(struct NXStatistics1D *stats, int n, int *x)
                         stats->lower_quartile = x[half_half_n];
                         stats->upper_quartile = x[half_n + half_half_n + 1];
                 } else {
-                        stats->lower_quartile = (x[half_half_n - 1] + x[half_half_n]) / 2.0;
-                        stats->upper_quartile = (x[half_n + half_half_n] + x[half_n + half_half_n + 1]) / 2.0;
+                        stats->lower_quartile = ((double)x[half_half_n - 1] + x[half_half_n]) / 2.0;
+                        stats->upper_quartile = ((double)x[half_n + half_half_n] + x[half_n + half_half_n + 1]) / 2.0;
                 }
         } else {
-                stats->median = (x[half_n - 1] + x[half_n]) / 2.0;
+                stats->median = ((double)x[half_n - 1] + x[half_n]) / 2.0;
                 if (half_n & 1) {
                         stats->lower_quartile = x[half_half_n];
                         stats->upper_quartile = x[half_n + half_half_n];
                 } else {
-                        stats->lower_quartile = (x[half_half_n - 1] + x[half_half_n]) / 2.0;
-                        stats->upper_quartile = (x[half_n + half_half_n - 1] + x[half_n + half_half_n]) / 2.0;
+                        stats->lower_quartile = ((double)x[half_half_n - 1] + x[half_half_n]) / 2.0;
+                        stats->upper_quartile = ((double)x[half_n + half_half_n - 1] + x[half_n + half_half_n]) / 2.0;
                 }
         }
         stats->interquartile_range = stats->upper_quartile - stats->lower_quartile;
-- 
2.43.0


From 9c518bc4235ad44b74a7e676433b915a07f1cdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:31 +0000
Subject: [PATCH 16/39] fix: keep double precision uniform samples below 1

---
 src/nx_uniform_sampler.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nx_uniform_sampler.c b/src/nx_uniform_sampler.c
index 732e887..51465d0 100644
--- a/src/nx_uniform_sampler.c
+++ b/src/nx_uniform_sampler.c
@@ -121,5 +121,7 @@ float nx_uniform_sampler_sample_s(struct NXUniformSampler *sampler)
 
 double nx_uniform_sampler_sample_d(struct NXUniformSampler *sampler)
 {
-        return sfmt_genrand_res53_mix(&sampler->state);
+        // rounding to double precision may reach 1, which is outside [0, 1)
+        double d = sfmt_genrand_res53_mix(&sampler->state);
+        return d < 1.0 ? d : 1.0 - DBL_EPSILON / 2.0;
 }
-- 
2.43.0


From f03579a2cf69e0a9c2e492cea23160269d991269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:59 +0000
Subject: [PATCH 17/39] fix: clamp to [0, 255] when converting float images to
 uchar

---
 src/nx_image.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index ba7cca4..6d1e470 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -410,7 +410,7 @@ static void nx_image_convert_f32_to_uc(struct NXImage* dest, const struct NXImag
                 uchar *rdest = dest->data.uc + y * dest->row_stride;
                 for (int x = 0; x < dest->width; ++x) {
                         int value = rsrc[x] * 255.0f;
-                        value = nx_min_i(0, nx_max_i(255, value));
+                        value = nx_max_i(0, nx_min_i(255, value));
                         rdest[x] = value;
                 }
         }
-- 
2.43.0


From bf5f45e11480801343efa5de1e5ad46a52df1e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:59 +0000
Subject: [PATCH 18/39] fix: a pixel can be both the minimum and the maximum in
 nx_image_normalize_to_zero_one

---
 src/nx_image.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 6d1e470..3af302b 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -212,11 +212,12 @@ void nx_image_normalize_to_zero_one(struct NXImage *img, NXBool symmetric_around
         for (int y = 0; y < img->height; ++y) {
                 float *row = img->data.f32 + y*img->row_stride;
                 for (int x = 0; x < img->width; ++x) {
-                        for (int c = 0; c < nc; ++c)
+                        for (int c = 0; c < nc; ++c) {
                                 if (row[nc*x+c] < vmin)
                                         vmin = row[nc*x+c];
-                                else if (row[nc*x+c] > vmax)
+                                if (row[nc*x+c] > vmax)
                                         vmax = row[nc*x+c];
+                        }
                 }
         }
         /* NX_LOG("D", "min and max values are %.12f and %.12f", vmin, vmax); */
-- 
2.43.0


From 9b8ecde68d2dcad30c2aa200ee40828e50b2eb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:59 +0000
Subject: [PATCH 19/39] fix: index the source with its own stride on the last
 row of nx_image_deriv_y

---
 src/nx_image.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 3af302b..4b7f992 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -1249,8 +1249,8 @@ void nx_image_deriv_x(struct NXImage *dest, const struct NXImage *src)
                         }                                               \
                 }                                                       \
                 for (int x = 0; x < dest->width; ++x) {                 \
-                        dest->data.f32[x + (src->height-1)*dest->row_stride] = 2.0f * (src->data.F[x + (src->height-1)*dest->row_stride] \
-                                                                                       - src->data.F[x + (src->height-2)*dest->row_stride])/S; \
+                        dest->data.f32[x + (src->height-1)*dest->row_stride] = 2.0f * (src->data.F[x + (src->height-1)*src->row_stride] \
+                                                                                       - src->data.F[x + (src->height-2)*src->row_stride])/S; \
                 }                                                       \
         }
 
-- 
2.43.0


From ef83ef9e8732797bff912123fac6ce61d36312b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:59 +0000
Subject: [PATCH 20/39] fix: nx_image_scale does not sample beyond the last row
 and column

---
 src/nx_image.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 4b7f992..3375d5c 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -553,6 +553,7 @@ void nx_image_scale_uc(struct NXImage *dest, const struct NXImage *src, float sc
                 int ypi = (int)yp;
                 float dy = yp - ypi;
 
+                const int step_y = (ypi + 1 < src->height) ? src->row_stride : 0;
                 const uchar *sample_row = src->data.uc + ypi * src->row_stride;
 
                 for (int x = 0; x < dest->width; ++x) {
@@ -560,13 +561,14 @@ void nx_image_scale_uc(struct NXImage *dest, const struct NXImage *src, float sc
                         int xpi = (int)xp;
                         float dx = xp - xpi;
 
+                        const int step_x = (xpi + 1 < src->width) ? 1 : 0;
                         const uchar *sample = sample_row + xpi;
 
                         float Ix0 = sample[0];
-                        float Ix1 = sample[1];
+                        float Ix1 = sample[step_x];
 
-                        float Iy0 = sample[src->row_stride];
-                        float Iy1 = sample[src->row_stride + 1];
+                        float Iy0 = sample[step_y];
+                        float Iy1 = sample[step_y + step_x];
 
                         short interp = (Ix0*(1.0f - dx) + Ix1*dx) * (1.0f - dy)
                                 + (Iy0*(1.0f - dx) + Iy1*dx) * dy;
@@ -639,6 +641,7 @@ void nx_image_scale_f32(struct NXImage *dest, const struct NXImage *src, float s
                 int ypi = (int)yp;
                 float dy = yp - ypi;
 
+                const int step_y = (ypi + 1 < src->height) ? src->row_stride : 0;
                 const float *sample_row = src->data.f32 + ypi * src->row_stride;
 
                 for (int x = 0; x < dest->width; ++x) {
@@ -646,13 +649,14 @@ void nx_image_scale_f32(struct NXImage *dest, const struct NXImage *src, float s
                         int xpi = (int)xp;
                         float dx = xp - xpi;
 
+                        const int step_x = (xpi + 1 < src->width) ? 1 : 0;
                         const float *sample = sample_row + xpi;
 
                         float Ix0 = sample[0];
-                        float Ix1 = sample[1];
+                        float Ix1 = sample[step_x];
 
-                        float Iy0 = sample[src->row_stride];
-                        float Iy1 = sample[src->row_stride + 1];
+                        float Iy0 = sample[step_y];
+                        float Iy1 = sample[step_y + step_x];
 
                         float interp = (Ix0*(1.0f - dx) + Ix1*dx) * (1.0f - dy)
                                 + (Iy0*(1.0f - dx) + Iy1*dx) * dy;
-- 
2.43.0


From a8b1ace08bde19d23a0ad990a48beca1b7c51766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:59 +0000
Subject: [PATCH 21/39] fix: anti-aliased downsampling of images with fewer
 than four columns or rows

---
 src/nx_image.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/nx_image.c b/src/nx_image.c
index 3375d5c..f3932a9 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -836,8 +836,17 @@ void nx_image_upsample(struct NXImage *dest, const struct NXImage *src)
                 for (int y = 0; y < dest->height; ++y) {                \
                         const T *src_row = src->data.F + y * src->row_stride; \
                         T *dest_row = dest->data.F + y * dest->row_stride; \
+                        if (src->width < 2)                             \
+                                break;                                  \
+                        if (src->width == 2) {                          \
+                                dest_row[0] = (12*src_row[1]            \
+                                               + 13 * src_row[0]) * norm_f; \
+                                continue;                               \
+                        }                                               \
                         dest_row[0] = (2*src_row[2] + 12*src_row[1]     \
                                        + 11 * src_row[0]) * norm_f;     \
+                        if (src->width == 3)                            \
+                                continue;                               \
                         for (int x = 1; x < dest->width-1; ++x) {       \
                                 float sum = src_row[2*x-2] + src_row[2*x+2] \
                                         + 6 * (src_row[2*x-1] + src_row[2*x+1]) \
@@ -892,8 +901,17 @@ void nx_image_downsample_aa_x(struct NXImage *dest, const struct NXImage *src)
                 for (int x = 0; x < dest->width; ++x) {                 \
                         const T *src_col = src->data.F + x;        \
                         T *dest_col = dest->data.F + x;            \
+                        if (src->height < 2)                            \
+                                break;                                  \
+                        if (src->height == 2) {                         \
+                                dest_col[0] = (12 * src_col[ss]         \
+                                               + 13 * src_col[0]) * norm_f; \
+                                continue;                               \
+                        }                                               \
                         dest_col[0] = (2*src_col[2*ss] + 12 * src_col[ss] \
                                        + 11 * src_col[0]) * norm_f;     \
+                        if (src->height == 3)                           \
+                                continue;                               \
                         for (int y = 1; y < dest->height-1; ++y) {      \
                                 int yds = y*dest->row_stride;           \
                                 float sum = src_col[(2*y-2)*ss] + src_col[(2*y+2)*ss] \
-- 
2.43.0


From 6b683eb6ab2c364d2a7a21c506f00dd2cd1782b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:59 +0000
Subject: [PATCH 22/39] fix: building a pyramid keeps the stride and data type
 of the source image

---
 src/nx_image_pyr_builder.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/nx_image_pyr_builder.c b/src/nx_image_pyr_builder.c
index ce0a22e..72bf2f7 100644
--- a/src/nx_image_pyr_builder.c
+++ b/src/nx_image_pyr_builder.c
@@ -217,6 +217,15 @@ void nx_image_pyr_builder_init_levels(struct NXImagePyrBuilder *builder, struct
                 int wi = width0 / si;
                 int hi = height0 / si;
 
+                // Level zero may already hold the source image, do not
+                // change its row stride or data type
+                if (i == 0 && pyr->levels[0].img->width == width0
+                    && pyr->levels[0].img->height == height0) {
+                        pyr->levels[0].scale = si;
+                        pyr->levels[0].sigma = sigma_i;
+                        continue;
+                }
+
                 nx_image_pyr_create_level(pyr, i, wi, hi, si, sigma_i);
         }
 
-- 
2.43.0


From 3d8db576c94810a1182b6639894d32ede6cc537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:00 +0000
Subject: [PATCH 23/39] fix: lexer keeps bytes apart from end of file (a byte
 0xFF ended the text)

---
 src/nx_lexer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_lexer.c b/src/nx_lexer.c
index 6df82be..4661758 100644
--- a/src/nx_lexer.c
+++ b/src/nx_lexer.c
@@ -143,7 +143,7 @@ int nx_lexer_consume(struct NXLexer *lex)
         if (lex->c == EOF)
                 return lex->c;
 
-        lex->c = lex->text[++lex->pos];
+        lex->c = (unsigned char)lex->text[++lex->pos];
         if (lex->c == '\0')
                 lex->c = EOF;
 
@@ -171,7 +171,7 @@ NXBool nx_lexer_match(struct NXLexer *lex, const char *s)
 
         int n = strlen(s);
         while (n--) {
-                if (lex->c == *s) {
+                if (lex->c == (unsigned char)*s) {
                         nx_lexer_consume(lex);
                 } else {
                         load_lexer_state(lex, &start_state);
-- 
2.43.0


From ad5cca12df4310028e5c071501028bddc13dd2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:27 +0000
Subject: [PATCH 24/39] fix: JSON false and null nodes were created as true

---
 src/nx_json_tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_tree.c b/src/nx_json_tree.c
index 669c302..5003dd6 100644
--- a/src/nx_json_tree.c
+++ b/src/nx_json_tree.c
@@ -186,12 +186,12 @@ struct NXJSONNode *nx_json_node_new_true()
 
 struct NXJSONNode *nx_json_node_new_false()
 {
-        return nx_json_node_new_constant(NX_JNT_TRUE);
+        return nx_json_node_new_constant(NX_JNT_FALSE);
 }
 
 struct NXJSONNode *nx_json_node_new_null()
 {
-        return nx_json_node_new_constant(NX_JNT_TRUE);
+        return nx_json_node_new_constant(NX_JNT_NULL);
 }
 
 void nx_json_tree_free(struct NXJSONNode *root)
-- 
2.43.0


From 98af5a39f281b37b933c49882cf5392d99d5f262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:27 +0000
Subject: [PATCH 25/39] fix: the escape \/ accepted by the JSON lexer could not
 be decoded

---
 src/nx_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nx_string.c b/src/nx_string.c
index 8de3035..a334946 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -171,6 +171,7 @@ char *nx_xstr_from_readable(size_t size, const char *readable)
                         case 'f': *(p++) = '\f'; break;
                         case 'b': *(p++) = '\b'; break;
                         case '"': *(p++) = '"'; break;
+                        case '/': *(p++) = '/'; break;
                         default:
                                 NX_FATAL(NX_LOG_TAG, "Unexpected control character '%c' in readable string!", *readable);
                         }
-- 
2.43.0


From f64b7ad2383eaefeb0802120269230e26e92a836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:01 +0000
Subject: [PATCH 26/39] fix: the edge count of adjacency-list graphs was never
 updated

---
 src/nx_graph.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nx_graph.c b/src/nx_graph.c
index 777811d..a5bb994 100644
--- a/src/nx_graph.c
+++ b/src/nx_graph.c
@@ -150,10 +150,12 @@ void nx_graph_insert_adj_lst(struct NXGraphAdjLst *g,
         }
 
         struct NXGraphEdge *e = nx_graph_edge_list_seach(g->edges[v], w);
-        if (e)
+        if (e) {
                 e->weight = weight;
-        else
+        } else {
                 g->edges[v] = nx_graph_edge_new(w, weight, g->edges[v]);
+                g->n_e++;
+        }
 
         e = nx_graph_edge_list_seach(g->edges[w], v);
         if (e)
-- 
2.43.0


From c90f8411485b36c8645c58478282e78ee25c02e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:46 +0000
Subject: [PATCH 27/39] fix: 64-bit keypoint ids were cut to int in their JSON
 form

---
 src/nx_json_bundle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_bundle.c b/src/nx_json_bundle.c
index bcf151d..4a9baa0 100644
--- a/src/nx_json_bundle.c
+++ b/src/nx_json_bundle.c
@@ -126,7 +126,7 @@ struct NXJSONNode *nx_json_bundle_keypoint(const struct NXKeypoint* key)
         nx_json_object_add(jkey, "sigma", nx_json_bundle_double(key->sigma));
         nx_json_object_add(jkey, "score", nx_json_bundle_double(key->score));
         nx_json_object_add(jkey, "ori", nx_json_bundle_double(key->ori));
-        nx_json_object_add(jkey, "id", nx_json_bundle_int(key->id));
+        nx_json_object_add(jkey, "id", nx_json_bundle_size_t(key->id));
 
         return jkey;
 }
@@ -282,7 +282,7 @@ struct NXKeypoint nx_json_unbundle_keypoint(struct NXJSONNode* node)
         key.sigma = nx_json_unbundle_double(nx_json_object_fget(node, "sigma",  NX_JNT_FPNUMBER));
         key.score = nx_json_unbundle_double(nx_json_object_fget(node, "score",  NX_JNT_FPNUMBER));
         key.ori = nx_json_unbundle_double(nx_json_object_fget(node, "ori",  NX_JNT_FPNUMBER));
-        key.id = nx_json_unbundle_int(nx_json_object_fget(node, "id",  NX_JNT_INTEGER));
+        key.id = nx_json_unbundle_size_t(nx_json_object_fget(node, "id",  NX_JNT_INTEGER));
 
         return key;
 }
-- 
2.43.0


From 68e6b734d38cf26c9ddaec2e3723c494e8f9c6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:11 +0000
Subject: [PATCH 28/39] fix: loading a CSV with strings as factors never ended

---
 src/nx_data_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 7238772..9e1f6ac 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -636,7 +636,7 @@ struct NXDataFrame *nx_data_frame_load_csv_stream(FILE *stream,
         struct NXDataFrame *df = nx_csv_parser_parse(cp);
 
         if (strings_as_factors) {
-                for (int col_id = 0; col_id < df->columns->size; ++i) {
+                for (int col_id = 0; col_id < df->columns->size; ++col_id) {
                         if (nx_data_frame_column(df, col_id)->type == NX_DCT_STRING)
                                 nx_data_frame_make_factor(df, col_id);
                 }
-- 
2.43.0


From c76a5fe02b21af567eabb2699fdacb5a5fbf182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:11 +0000
Subject: [PATCH 29/39] fix: column labels with quotes, backslashes or control
 characters changed in CSV files

---
 src/nx_data_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 9e1f6ac..56d81a4 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -522,7 +522,7 @@ NXBool nx_data_frame_fprintf(const struct NXDataFrame *df, FILE *stream,
         int nc = nx_data_frame_n_columns(df);
         for (int i = 0; i < nc; ++i) {
                 const struct NXDataColumn *dc = nx_data_frame_column(df, i);
-                if (EOF == nx_fputs_readable(nx_data_column_label(dc), stream)) {
+                if (EOF == nx_fputs_double_quoted(nx_data_column_label(dc), stream)) {
                         NX_ERROR(NX_LOG_TAG, "Error printing label of data frame for column %d", i);
                         return NX_FALSE;
                 }
-- 
2.43.0


From f47d5f73fecf8537f5411aa907567c191eb10189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:11 +0000
Subject: [PATCH 30/39] fix: setting a data frame string to its own value read
 freed memory

---
 src/nx_data_frame.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 56d81a4..3de7570 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -445,8 +445,9 @@ void nx_data_frame_set_string(struct NXDataFrame *df, int row_id, int col_id,
 
         struct NXDataColumn *dc = df->columns->elems[col_id];
         CHECK_DATA_COLUMN_TYPE(dc,NX_DCT_STRING);
+        char *copy = nx_strdup(value); // value may be the current element
         NA_DATA_FRAME_ELEMENT(dc,row_id);
-        dc->elems[row_id] = nx_strdup(value);
+        dc->elems[row_id] = copy;
 }
 
 void nx_data_frame_set_int(struct NXDataFrame *df, int row_id, int col_id,
-- 
2.43.0


From b9d6b00cd4add15517e69d0d5254480552377031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:11 +0000
Subject: [PATCH 31/39] fix: hexadecimal and octal CSV fields were typed as
 integers but read as decimals

---
 src/nx_csv_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_csv_parser.c b/src/nx_csv_parser.c
index 0631856..ec88df9 100644
--- a/src/nx_csv_parser.c
+++ b/src/nx_csv_parser.c
@@ -41,7 +41,7 @@ static inline enum NXDataColumnType nx_csv_field_type_from_token_text(const char
                 return NX_DCT_BOOL;
 
         char *endptr;
-        long lv = strtol(text, &endptr, 0);
+        long lv = strtol(text, &endptr, 10);
         if (*endptr == '\0' && lv <= INT_MAX && lv >= INT_MIN)
                 return NX_DCT_INT;
 
-- 
2.43.0


From 93fde2864078887d4a0af4f9c52d036325544e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:11 +0000
Subject: [PATCH 32/39] fix: tiny (subnormal) numbers turned CSV columns into
 strings

---
 src/nx_csv_parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nx_csv_parser.c b/src/nx_csv_parser.c
index ec88df9..f7930d9 100644
--- a/src/nx_csv_parser.c
+++ b/src/nx_csv_parser.c
@@ -46,8 +46,9 @@ static inline enum NXDataColumnType nx_csv_field_type_from_token_text(const char
                 return NX_DCT_INT;
 
         errno = 0;
-        strtod(text, &endptr);
-        if (errno != ERANGE && *endptr == '\0')
+        double dv = strtod(text, &endptr);
+        NXBool overflow = errno == ERANGE && (dv > 1.0 || dv < -1.0);
+        if (!overflow && *endptr == '\0')
                 return NX_DCT_DOUBLE;
 
         return NX_DCT_STRING;
-- 
2.43.0


From 4ea6db1b427c1eca1754910c163362c5e08c0f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:38 +0000
Subject: [PATCH 33/39] fix: closing a stream reported success when the final
 flush failed

---
 src/nx_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nx_io.c b/src/nx_io.c
index 1359afb..7b02186 100644
--- a/src/nx_io.c
+++ b/src/nx_io.c
@@ -50,7 +50,8 @@ void nx_xfclose(FILE *stream, const char *stream_label)
 
         int e = ferror(stream);
 
-        fclose(stream);
+        if (fclose(stream) != 0)
+                e = 1;
 
         if (e) {
                  NX_IO_FATAL(NX_LOG_TAG, "Error detected before closing stream %s",
@@ -78,7 +79,8 @@ NXResult nx_fclose(FILE *stream, const char *stream_label)
 
         int e = ferror(stream);
 
-        fclose(stream);
+        if (fclose(stream) != 0)
+                e = 1;
 
         if (e) {
                 NX_IO_ERROR(NX_LOG_TAG, "Error detected before closing stream %s",
-- 
2.43.0


From d5b9fa25d99e6d0586b11bdb8b8fbed088cb6b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:38 +0000
Subject: [PATCH 34/39] fix: PNM files with comments or with pixels on the
 header line were misread or rejected

---
 src/nx_image_io_pnm.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/nx_image_io_pnm.c b/src/nx_image_io_pnm.c
index b2b66ad..7ae8e8d 100644
--- a/src/nx_image_io_pnm.c
+++ b/src/nx_image_io_pnm.c
@@ -258,6 +258,24 @@ NXResult nx_image_load_pnm(struct NXImage *img, const char *filename,
                 pnm_type = NX_IMAGE_RGBA;
         }
 
+        int c = fgetc(pnm);
+        while (c == ' ' || c == '\n' || c == '\t') {
+                c = fgetc(pnm);
+        }
+
+        while (c == '#') {
+                while (c != '\n') {
+                        c = fgetc(pnm);
+                        if (c == EOF) {
+                                NX_IO_ERROR(NX_LOG_TAG, "%s does not contain image data", filename);
+                                fclose(pnm);
+                                return NX_FAIL;
+                        }
+                }
+                c = fgetc(pnm);
+        }
+        ungetc(c, pnm);
+
         int pnm_width;
         int pnm_height;
         int pnm_levels;
@@ -268,15 +286,13 @@ NXResult nx_image_load_pnm(struct NXImage *img, const char *filename,
                 return NX_FAIL;
         }
 
-        // Skip a new line
-        char buffer[256];
-        if (fgets(buffer, sizeof(buffer), pnm) == NULL) {
+        // Skip the single whitespace character between the header and the pixels
+        if (fgetc(pnm) == EOF) {
                 NX_IO_ERROR(NX_LOG_TAG, "Error reading from %s", filename);
                 fclose(pnm);
                 return NX_FAIL;
         }
 
-
         enum NXImageType img_type;
         switch (mode) {
         case NX_IMAGE_LOAD_GRAYSCALE:
-- 
2.43.0


From 790449cebd6b4f586d5525070c1dccf4eaee950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:38 +0000
Subject: [PATCH 35/39] fix: PNM headers with unsupported sizes or sample
 widths were read as 8-bit images

---
 src/nx_image_io_pnm.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/nx_image_io_pnm.c b/src/nx_image_io_pnm.c
index 7ae8e8d..56f0264 100644
--- a/src/nx_image_io_pnm.c
+++ b/src/nx_image_io_pnm.c
@@ -26,6 +26,7 @@
 #include "virg/nexus/nx_image_io_pnm.h"
 
 #include <stdlib.h>
+#include <limits.h>
 
 #include "virg/nexus/nx_log.h"
 #include "virg/nexus/nx_assert.h"
@@ -98,6 +99,14 @@ NXResult nx_image_save_pnm(const struct NXImage *img, const char *filename)
         return res;
 }
 
+static NXBool is_pnm_header_supported(int width, int height, int levels)
+{
+        // Samples above 255 take two bytes, and pixel offsets must fit in an int
+        return width > 0 && height > 0
+                && levels > 0 && levels <= 255
+                && width <= INT_MAX / 8 / height;
+}
+
 static NXResult read_pnm_data(struct NXImage *img, enum NXImageType img_type,
                               FILE *pnm, int pnm_width, int pnm_height, enum NXImageType pnm_type)
 {
@@ -204,6 +213,9 @@ void nx_image_xload_pnm(struct NXImage *img, const char *filename,
         if (fscanf(pnm, "%d %d %d", &pnm_width, &pnm_height, &pnm_levels) != 3) {
                 NX_IO_FATAL(NX_LOG_TAG, "Could not read image attributes from %s", filename);
         }
+        if (!is_pnm_header_supported(pnm_width, pnm_height, pnm_levels)) {
+                NX_FATAL(NX_LOG_TAG, "Unsupported image attributes in %s", filename);
+        }
         c = fgetc(pnm);
 
         enum NXImageType img_type;
@@ -285,6 +297,11 @@ NXResult nx_image_load_pnm(struct NXImage *img, const char *filename,
                 fclose(pnm);
                 return NX_FAIL;
         }
+        if (!is_pnm_header_supported(pnm_width, pnm_height, pnm_levels)) {
+                NX_ERROR(NX_LOG_TAG, "Unsupported image attributes in %s", filename);
+                fclose(pnm);
+                return NX_FAIL;
+        }
 
         // Skip the single whitespace character between the header and the pixels
         if (fgetc(pnm) == EOF) {
-- 
2.43.0


From e300c81ee04f4f51bdf754a54e493bb9447cade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:38 +0000
Subject: [PATCH 36/39] fix: loading an RGB PNG as RGBA read three-byte pixels
 into four-byte rows

---
 src/nx_image_io_png.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_image_io_png.c b/src/nx_image_io_png.c
index 3b25082..80cdc8b 100644
--- a/src/nx_image_io_png.c
+++ b/src/nx_image_io_png.c
@@ -169,8 +169,8 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
                 if (color_type == PNG_COLOR_TYPE_GRAY ||
                     color_type == PNG_COLOR_TYPE_GA) {
                         png_set_gray_to_rgb(png_ptr);
-                        png_set_add_alpha(png_ptr, 255, PNG_FILLER_AFTER);
                 }
+                png_set_add_alpha(png_ptr, 255, PNG_FILLER_AFTER);
         } else {
                 if (color_type == PNG_COLOR_TYPE_GRAY ||
                     color_type == PNG_COLOR_TYPE_GA) {
-- 
2.43.0


From e36d21325ad4493dbf3df5653074f1288682ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:38 +0000
Subject: [PATCH 37/39] fix: a grayscale PNG with transparency overran the rows
 of the loaded image

---
 src/nx_image_io_png.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nx_image_io_png.c b/src/nx_image_io_png.c
index 80cdc8b..ae43292 100644
--- a/src/nx_image_io_png.c
+++ b/src/nx_image_io_png.c
@@ -175,6 +175,7 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
                 if (color_type == PNG_COLOR_TYPE_GRAY ||
                     color_type == PNG_COLOR_TYPE_GA) {
                         output_type = NX_IMAGE_GRAYSCALE;
+                        png_set_strip_alpha(png_ptr); // a tRNS chunk expands to alpha
                 }
 
                 if(color_type == PNG_COLOR_TYPE_RGB ||
-- 
2.43.0


From 2479c7dd7c5fb3d8f7e49546256f29f10076debf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:51 +0000
Subject: [PATCH 38/39] fix: reading a BRIEF extractor swapped its radius and
 descriptor size

---
 src/nx_brief_extractor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_brief_extractor.c b/src/nx_brief_extractor.c
index ed3a74b..4386371 100644
--- a/src/nx_brief_extractor.c
+++ b/src/nx_brief_extractor.c
@@ -373,7 +373,7 @@ NXResult nx_brief_extractor_read(struct NXBriefExtractor *be, FILE *stream)
         if (fread(&n_octets, sizeof(n_octets), 1, stream) != 1)
                 return NX_FAIL;
 
-        nx_brief_extractor_resize(be, radius, n_octets);
+        nx_brief_extractor_resize(be, n_octets, radius);
 
         int n_offsets = be->n_octets*4*8;
         if (fread(be->offsets, sizeof(*be->offsets), n_offsets, stream) != (size_t)n_offsets)
-- 
2.43.0


From cb80c2fc930b6e8af004d658b2f051f2e96bccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:47 +0000
Subject: [PATCH 39/39] fix: hashing an option name overflowed int

The hash of an option name of seven or more characters overflowed a signed
int, which is undefined. Compute it in unsigned arithmetic; the buckets
stay the same.
---
 src/nx_options.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nx_options.c b/src/nx_options.c
index f4486db..9e812db 100644
--- a/src/nx_options.c
+++ b/src/nx_options.c
@@ -756,12 +756,13 @@ int nx_options_hash_code(const char *key)
 {
         NX_ASSERT_PTR(key);
 
-        int hash = 0;
+        // Unsigned arithmetic wraps around, overflow of int is undefined
+        unsigned int hash = 0;
         while (*key != '\0') {
                 hash = hash * 31 + *key;
                 ++key;
         }
-        return hash;
+        return (int)hash;
 }
 
 void nx_options_free_rest(struct NXOptions *opt)
-- 
2.43.0

