From 2ba6e1945cf33f1383570da1afcbc9e07f539344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 1/6] fix: Libm<T> offers every function of its type under the
 unsuffixed name

Libm<f64>::roundeven was only reachable as the misspelt roundevem, the f32
fmaximum/fminimum family only as suffixed methods of Libm<f64>, and the f16
fmaximum, sqrt and trunc only with a suffix. The old names are kept.
---
 libm/src/libm_helper.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libm/src/libm_helper.rs b/libm/src/libm_helper.rs
index dfa1ff7..6a3f234 100644
--- a/libm/src/libm_helper.rs
+++ b/libm/src/libm_helper.rs
@@ -72,7 +72,11 @@ libm_helper! {
         (fn floor(x: f32) -> (f32);                 => floorf);
         (fn fma(x: f32, y: f32, z: f32) -> (f32);   => fmaf);
         (fn fmax(x: f32, y: f32) -> (f32);          => fmaxf);
+        (fn fmaximum(x: f32, y: f32) -> (f32);      => fmaximumf);
+        (fn fmaximum_num(x: f32, y: f32) -> (f32);  => fmaximum_numf);
         (fn fmin(x: f32, y: f32) -> (f32);          => fminf);
+        (fn fminimum(x: f32, y: f32) -> (f32);      => fminimumf);
+        (fn fminimum_num(x: f32, y: f32) -> (f32);  => fminimum_numf);
         (fn fmod(x: f32, y: f32) -> (f32);          => fmodf);
         (fn frexp(x: f32) -> (f32, i32);            => frexpf);
         (fn hypot(x: f32, y: f32) -> (f32);         => hypotf);
@@ -169,6 +173,7 @@ libm_helper! {
         (fn rint(x: f64) -> (f64);                  => rint);
         (fn round(x: f64) -> (f64);                 => round);
         (fn roundevem(x: f64) -> (f64);             => roundeven);
+        (fn roundeven(x: f64) -> (f64);             => roundeven);
         (fn scalbn(x: f64, n: i32) -> (f64);        => scalbn);
         (fn sin(x: f64) -> (f64);                   => sin);
         (fn sincos(x: f64) -> (f64, f64);           => sincos);
@@ -196,6 +201,7 @@ libm_helper! {
         (fn fdim(x: f16, y: f16) -> (f16);          => fdimf16);
         (fn floor(x: f16) -> (f16);                 => floorf16);
         (fn fmax(x: f16, y: f16) -> (f16);          => fmaxf16);
+        (fn fmaximum(x: f16, y: f16) -> (f16);      => fmaximumf16);
         (fn fmaximum_num(x: f16, y: f16) -> (f16);  => fmaximum_numf16);
         (fn fmaximumf16(x: f16, y: f16) -> (f16);   => fmaximumf16);
         (fn fmin(x: f16, y: f16) -> (f16);          => fminf16);
@@ -207,7 +213,9 @@ libm_helper! {
         (fn round(x: f16) -> (f16);                 => roundf16);
         (fn roundeven(x: f16) -> (f16);             => roundevenf16);
         (fn scalbn(x: f16, n: i32) -> (f16);        => scalbnf16);
+        (fn sqrt(x: f16) -> (f16);                  => sqrtf16);
         (fn sqrtf(x: f16) -> (f16);                 => sqrtf16);
+        (fn trunc(x: f16) -> (f16);                 => truncf16);
         (fn truncf(x: f16) -> (f16);                => truncf16);
         // verify-sorted-end
     }
-- 
2.43.0


From 83b92f6f6f0160d9fb48e2680f4ae8617564b67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 2/6] fix: acosh and acoshf return NaN for every x below 1

For x <= -2 the sign was ignored when the formula was chosen, and an arbitrary
number came back (acosh(-584536) = 4.5).
---
 libm/src/math/acosh.rs  | 6 +++---
 libm/src/math/acoshf.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libm/src/math/acosh.rs b/libm/src/math/acosh.rs
index d1f5b9f..e98f2ee 100644
--- a/libm/src/math/acosh.rs
+++ b/libm/src/math/acosh.rs
@@ -18,10 +18,10 @@ pub fn acosh(x: f64) -> f64 {
         /* |x| < 2, up to 2ulp error in [1,1.125] */
         return log1p(x - 1.0 + sqrt((x - 1.0) * (x - 1.0) + 2.0 * (x - 1.0)));
     }
-    if e < 0x3ff + 26 {
-        /* |x| < 0x1p26 */
+    if u < (0x3ff + 26) << 52 {
+        /* 2 <= x < 0x1p26 */
         return log(2.0 * x - 1.0 / (x + sqrt(x * x - 1.0)));
     }
-    /* |x| >= 0x1p26 or nan */
+    /* x >= 0x1p26 or x <= -2 or nan */
     return log(x) + LN2;
 }
diff --git a/libm/src/math/acoshf.rs b/libm/src/math/acoshf.rs
index ad3455f..fadd422 100644
--- a/libm/src/math/acoshf.rs
+++ b/libm/src/math/acoshf.rs
@@ -17,10 +17,10 @@ pub fn acoshf(x: f32) -> f32 {
         /* up to 2ulp error in [1,1.125] */
         return log1pf(x - 1.0 + sqrtf((x - 1.0) * (x - 1.0) + 2.0 * (x - 1.0)));
     }
-    if a < 0x3f800000 + (12 << 23) {
-        /* |x| < 0x1p12 */
+    if u < 0x3f800000 + (12 << 23) {
+        /* 2 <= x < 0x1p12 */
         return logf(2.0 * x - 1.0 / (x + sqrtf(x * x - 1.0)));
     }
-    /* x >= 0x1p12 */
+    /* x >= 0x1p12 or x <= -2 or nan */
     return logf(x) + LN2;
 }
-- 
2.43.0


From 14b61fc0c95b44672914a82ee3bc99dbcc1601b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 3/6] fix: expm1f no longer overflows before log(FLT_MAX),
 sinhf no longer returns NaN there

The overflow threshold of expm1f was 88.72168 instead of log(FLT_MAX) = 88.72283,
so that expm1f returned infinity for arguments in between, and sinhf, which uses
the result up to log(FLT_MAX), returned NaN.
---
 libm/src/math/expm1f.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/expm1f.rs b/libm/src/math/expm1f.rs
index 12c6f53..a347ce6 100644
--- a/libm/src/math/expm1f.rs
+++ b/libm/src/math/expm1f.rs
@@ -13,7 +13,7 @@
  * ====================================================
  */
 
-const O_THRESHOLD: f32 = 8.8721679688e+01; /* 0x42b17180 */
+const O_THRESHOLD: f32 = 8.8722831726e+01; /* 0x42b17217 */
 const LN2_HI: f32 = 6.9313812256e-01; /* 0x3f317180 */
 const LN2_LO: f32 = 9.0580006145e-06; /* 0x3717f7d1 */
 const INV_LN2: f32 = 1.4426950216e+00; /* 0x3fb8aa3b */
-- 
2.43.0


From 38cf064ef24098d3bd6a303d4f49741536d0f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 4/6] fix: fmaximum_num(-0.0, +NaN) returns -0.0 instead of NaN

---
 libm/src/math/generic/fmaximum_num.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libm/src/math/generic/fmaximum_num.rs b/libm/src/math/generic/fmaximum_num.rs
index f7efdde..3607986 100644
--- a/libm/src/math/generic/fmaximum_num.rs
+++ b/libm/src/math/generic/fmaximum_num.rs
@@ -15,12 +15,14 @@ use super::super::Float;
 
 #[inline]
 pub fn fmaximum_num<F: Float>(x: F, y: F) -> F {
-    let res =
-        if x.is_nan() || x < y || (x.to_bits() == F::NEG_ZERO.to_bits() && y.is_sign_positive()) {
-            y
-        } else {
-            x
-        };
+    let res = if x.is_nan()
+        || x < y
+        || (x.to_bits() == F::NEG_ZERO.to_bits() && y.to_bits() == F::ZERO.to_bits())
+    {
+        y
+    } else {
+        x
+    };
 
     // Canonicalize
     res * F::ONE
-- 
2.43.0


From 904969c963a31f44394b2b8cb50bc88cbad6d861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 5/6] fix: fma loses the sticky bit when the product is shifted
 right under a large addend

The sticky bit was computed from the already shifted low word, so nonzero bits
that were shifted out could be forgotten and a result just above a rounding tie
was rounded to even, e.g. fma(0x1.0000002d3e68bp52, 0x1.ffffffa5832ebp52, 0x1p158).
---
 libm/src/math/fma.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libm/src/math/fma.rs b/libm/src/math/fma.rs
index e0b3347..2834346 100644
--- a/libm/src/math/fma.rs
+++ b/libm/src/math/fma.rs
@@ -93,9 +93,9 @@ where
                 // Exactly `sbits`, nothing to do
             } else if d < sbits {
                 // Remaining shift fits within `sbits`. Leave `z` in place, shift `x * y`
-                rlo = (rhi << (sbits - d)) | (rlo >> d);
-                // Set the sticky bit
-                rlo |= IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                // and set the sticky bit if anything nonzero is shifted out.
+                let sticky = IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                rlo = (rhi << (sbits - d)) | (rlo >> d) | sticky;
                 rhi = rhi >> d;
             } else {
                 // `z`'s magnitude is enough that `x * y` is irrelevant. It was nonzero, so set
-- 
2.43.0


From 80e4d9778cde360d9ef42110f136c1282e57f455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:50 +0000
Subject: [PATCH 6/6] fix: fmaf: no double rounding for subnormal results

The correction of double rounding was only applied when the bits beyond
f32's significand were exactly half, at the position of a normal result.
Round the intermediate result to odd instead, which is right for every
position of the last bit: fmaf(0x1.fffff8p-76, 0x1.000004p-75, 0x1.000004p-127)
was rounded up instead of down.
---
 libm/src/math/fma_wide.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/libm/src/math/fma_wide.rs b/libm/src/math/fma_wide.rs
index 08b78b0..824629e 100644
--- a/libm/src/math/fma_wide.rs
+++ b/libm/src/math/fma_wide.rs
@@ -2,7 +2,7 @@
 /* origin: musl src/math/fmaf.c. Ported to generic Rust algorithm in 2025, TG. */
 
 use super::support::{FpResult, IntTy, Round, Status};
-use super::{CastFrom, CastInto, DFloat, Float, HFloat, MinInt};
+use super::{CastFrom, CastInto, DFloat, Float, HFloat, Int, MinInt};
 
 // Placeholder so we can have `fmaf16` in the `Float` trait.
 #[allow(unused)]
@@ -44,13 +44,10 @@ where
     let re = result.ex();
     let zb: B = z.widen();
 
-    let prec_diff = B::SIG_BITS - F::SIG_BITS;
-    let excess_prec = ui & ((one << prec_diff) - one);
-    let halfway = one << (prec_diff - 1);
-
     // Common case: the larger precision is fine if...
-    // This is not a halfway case
-    if excess_prec != halfway
+    // This is not a halfway case. The position of the halfway bit depends on whether the narrowed
+    // result is subnormal, but in no case is a result with an odd significand halfway.
+    if ui & one == one
         // Or the result is NaN
         || re == B::EXP_SAT
         // Or the result is exact
@@ -78,12 +75,13 @@ where
         return FpResult { val: result.narrow(), status };
     }
 
+    // Otherwise round to odd, i.e. to the adjacent value on the side of the exact result.
     let neg = ui >> (B::BITS - 1) != IntTy::<B>::ZERO;
     let err = if neg == (zb > xy) { xy - result + zb } else { zb - result + xy };
     if neg == (err < B::ZERO) {
-        ui += one;
+        ui = ui.wrapping_add(one);
     } else {
-        ui -= one;
+        ui = ui.wrapping_sub(one);
     }
 
     FpResult::ok(B::from_bits(ui).narrow())
-- 
2.43.0

