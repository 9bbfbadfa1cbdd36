From 140ed8cc778fb4b3439edd390d516d9f2a715799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:24 +0000
Subject: [PATCH 1/5] fix: copyvec_*_simd must not load a vector past the end
 of the source

The unrolled copy preloaded the next vector before storing the current one,
so the last iteration read one vector past the end of the source buffer and
faults when that buffer is followed by an unmapped page.
---
 simd_memory.hpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/simd_memory.hpp b/simd_memory.hpp
index ca5430b..2b3ad16 100644
--- a/simd_memory.hpp
+++ b/simd_memory.hpp
@@ -288,27 +288,15 @@ struct copyvec
         else
             val.load(src);
 
-        mp_iteration(dst, src + offset, val);
-    }
-
-    static always_inline void mp_iteration(F * dst, const F * src, vec<F> const & loaded_value)
-    {
-        vec<F> val;
-
-        if (src_aligned)
-            val.load_aligned(src);
-        else
-            val.load(src);
-
-        store_aligned<dst_aligned>(loaded_value, dst);
-        copyvec<F, src_aligned, dst_aligned, n-offset>::mp_iteration(dst+offset, src+offset, val);
+        store_aligned<dst_aligned>(val, dst);
+        copyvec<F, src_aligned, dst_aligned, n-offset>::mp_iteration(dst+offset, src+offset);
     }
 };
 
 template <typename F, bool src_aligned, bool dst_aligned>
 struct copyvec<F, src_aligned, dst_aligned, 0>
 {
-    static always_inline void mp_iteration(F * dst, const F * src, vec<F> loaded_value)
+    static always_inline void mp_iteration(F * dst, const F * src)
     {}
 };
 
-- 
2.43.0


From 0619bd251f43943f40261b3e57bfbe3efc9613b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:24 +0000
Subject: [PATCH 2/5] fix: make the ramped addvec overloads usable

They modified a const parameter and called vec::set with a wrong signature,
so no caller could instantiate them.
---
 simd_memory.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simd_memory.hpp b/simd_memory.hpp
index 2b3ad16..d00a2b0 100644
--- a/simd_memory.hpp
+++ b/simd_memory.hpp
@@ -356,7 +356,7 @@ inline void addvec(F * out, const F in, unsigned int n)
 }
 
 template <typename F>
-inline void addvec(F * out, const F in, const F slope, unsigned int n)
+inline void addvec(F * out, F in, const F slope, unsigned int n)
 {
     do {
         *out++ += in; in += slope;
@@ -448,7 +448,7 @@ inline void addvec_simd(F * out, const F in, const F slope, unsigned int n)
 {
     const int per_loop = vec<F>::objects_per_cacheline;
     vec<F> vin; vin.set_slope(in, slope);
-    vec<F> vslope; vslope.set(slope * vec<F>::size);
+    vec<F> vslope; vslope.set_vec(slope * vec<F>::size);
     n /= per_loop;
     do
     {
@@ -475,7 +475,7 @@ template <unsigned int n, typename F>
 inline void addvec_simd(F * out, const F in, const F slope)
 {
     vec<F> vin; vin.set_slope(in, slope);
-    vec<F> vslope; vslope.set(slope * vec<F>::size);
+    vec<F> vslope; vslope.set_vec(slope * vec<F>::size);
     detail::addvec<F, n>::mp_iteration(out, vin, vslope);
 }
 
-- 
2.43.0


From 362fccf38cdb233aea470b4094f7ffb4156029e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:24 +0000
Subject: [PATCH 3/5] fix: keep the vector ramp slope in the sample type

The per-vector slope of a double ramp was truncated to float, so SIMD ramps
drifted away from the requested line.
---
 detail/wrap_argument_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/wrap_argument_vector.hpp b/detail/wrap_argument_vector.hpp
index 399dec2..0b1dc47 100644
--- a/detail/wrap_argument_vector.hpp
+++ b/detail/wrap_argument_vector.hpp
@@ -91,7 +91,7 @@ struct vector_ramp_argument
 {
     always_inline vector_ramp_argument(FloatType const & base, FloatType const & slope)
     {
-        float vSlope = data.set_slope(base, slope);
+        FloatType vSlope = data.set_slope(base, slope);
         slope_.set_vec(vSlope);
     }
 
-- 
2.43.0


From d1dc347d135f8598141762656f4bcf15fe8c023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:24 +0000
Subject: [PATCH 4/5] fix: start horizontal min/max from the neutral element

numeric_limits::min() is the smallest positive number: the maximum of an
all-negative block and the minimum of an all-positive block were wrong.
---
 simd_horizontal_functions.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/simd_horizontal_functions.hpp b/simd_horizontal_functions.hpp
index 326fe40..f15bdc8 100644
--- a/simd_horizontal_functions.hpp
+++ b/simd_horizontal_functions.hpp
@@ -23,6 +23,7 @@
 #include "vec.hpp"
 
 #include <algorithm>            /* for max */
+#include <limits>
 
 #if defined(__GNUC__) && defined(NDEBUG)
 #define always_inline inline  __attribute__((always_inline))
@@ -36,7 +37,7 @@ namespace nova {
 template <typename F>
 inline F horizontal_max_vec(const F * in, unsigned int n)
 {
-    F current = std::numeric_limits<F>::min();
+    F current = -std::numeric_limits<F>::infinity();
     using namespace std;
 
     do {
@@ -49,7 +50,7 @@ inline F horizontal_max_vec(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_max_vec_simd(const F * in, unsigned int n)
 {
-    F init = std::numeric_limits<F>::min();
+    F init = -std::numeric_limits<F>::infinity();
     vec<F> current(init);
 
     /* loop */
@@ -71,7 +72,7 @@ inline F horizontal_max_vec_simd(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_min_vec(const F * in, unsigned int n)
 {
-    F current = std::numeric_limits<F>::min();
+    F current = std::numeric_limits<F>::infinity();
     using namespace std;
 
     do {
@@ -84,7 +85,7 @@ inline F horizontal_min_vec(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_min_vec_simd(const F * in, unsigned int n)
 {
-    F init = std::numeric_limits<F>::min();
+    F init = std::numeric_limits<F>::infinity();
     vec<F> current(init);
 
     /* loop */
@@ -139,8 +140,8 @@ inline F horizontal_sum_vec_simd(const F * in, unsigned int n)
 template <typename F>
 inline void horizontal_minmax_vec(F & rmin, F & rmax, const F * in, unsigned int n)
 {
-    F current_max = std::numeric_limits<F>::min();
-    F current_min = std::numeric_limits<F>::max();
+    F current_max = -std::numeric_limits<F>::infinity();
+    F current_min = std::numeric_limits<F>::infinity();
     using namespace std;
 
     do {
@@ -155,8 +156,8 @@ inline void horizontal_minmax_vec(F & rmin, F & rmax, const F * in, unsigned int
 template <typename F>
 inline void horizontal_minmax_vec_simd(F & rmin, F & rmax, const F * in, unsigned int n)
 {
-    vec<F> current_max(std::numeric_limits<F>::min());
-    vec<F> current_min(std::numeric_limits<F>::max());
+    vec<F> current_max(-std::numeric_limits<F>::infinity());
+    vec<F> current_min(std::numeric_limits<F>::infinity());
 
     /* loop */
     const size_t vec_size = vec<F>::size;
@@ -178,7 +179,7 @@ inline void horizontal_minmax_vec_simd(F & rmin, F & rmax, const F * in, unsigne
 template <typename F>
 inline void horizontal_maxsum_vec(F & rmax, F & rsum, const F * in, unsigned int n)
 {
-    F current_max = std::numeric_limits<F>::min();
+    F current_max = -std::numeric_limits<F>::infinity();
     F current_sum = 0;
     using namespace std;
 
@@ -194,7 +195,7 @@ inline void horizontal_maxsum_vec(F & rmax, F & rsum, const F * in, unsigned int
 template <typename F>
 inline void horizontal_maxsum_vec_simd(F & rmax, F & rsum, const F * in, unsigned int n)
 {
-    vec<F> current_max(std::numeric_limits<F>::min());
+    vec<F> current_max(-std::numeric_limits<F>::infinity());
     vec<F> current_sum(F(0));
 
     /* loop */
-- 
2.43.0


From 4b70ef822988c35c9d6c8ad3deb2ffe2efa17e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:23 +0000
Subject: [PATCH 5/5] fix: acos(-0.5) took the branch for arguments below -0.5

The range selection excluded -0.5 from the middle branch while the argument
reduction included it, so the SIMD acos returned 4.18879 instead of 2.0944.
---
 detail/vec_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index faf6be8..d848084 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -433,7 +433,7 @@ always_inline VecType vec_acos_float(VecType const & arg)
     VecType ret_05_1 = two_asin;
 
     VecType ret_m05_1 = select(ret_m05_05, ret_05_1, mask_gt(arg, half));
-    VecType ret = select(ret_m1_m05, ret_m05_1, mask_gt(arg, -0.5));
+    VecType ret = select(ret_m1_m05, ret_m05_1, mask_ge(arg, -0.5));
 
     // |arg| > 1: return 0
     ret = select(ret, zero, mask_gt(abs_arg, one));
-- 
2.43.0

