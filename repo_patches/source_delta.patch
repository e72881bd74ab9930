From 4f480eb5184b9cd8ffb071c37afc845abd85576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 01/13] fix: acosh and acoshf return NaN for every x < 1

For x <= -2 the middle branch evaluated 2x - 1/(x + sqrt(x*x - 1)), whose
cancellation sometimes yields a positive argument for log, so a finite value
came back instead of NaN. Send negative arguments to log(x) directly.
---
 libm/src/math/acosh.rs  | 6 +++---
 libm/src/math/acoshf.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libm/src/math/acosh.rs b/libm/src/math/acosh.rs
index d1f5b9f..1eb47d3 100644
--- a/libm/src/math/acosh.rs
+++ b/libm/src/math/acosh.rs
@@ -18,10 +18,10 @@ pub fn acosh(x: f64) -> f64 {
         /* |x| < 2, up to 2ulp error in [1,1.125] */
         return log1p(x - 1.0 + sqrt((x - 1.0) * (x - 1.0) + 2.0 * (x - 1.0)));
     }
-    if e < 0x3ff + 26 {
-        /* |x| < 0x1p26 */
+    if x > 0.0 && e < 0x3ff + 26 {
+        /* 2 <= x < 0x1p26 */
         return log(2.0 * x - 1.0 / (x + sqrt(x * x - 1.0)));
     }
-    /* |x| >= 0x1p26 or nan */
+    /* x >= 0x1p26 or x <= -2 or nan */
     return log(x) + LN2;
 }
diff --git a/libm/src/math/acoshf.rs b/libm/src/math/acoshf.rs
index ad3455f..fadd422 100644
--- a/libm/src/math/acoshf.rs
+++ b/libm/src/math/acoshf.rs
@@ -17,10 +17,10 @@ pub fn acoshf(x: f32) -> f32 {
         /* up to 2ulp error in [1,1.125] */
         return log1pf(x - 1.0 + sqrtf((x - 1.0) * (x - 1.0) + 2.0 * (x - 1.0)));
     }
-    if a < 0x3f800000 + (12 << 23) {
-        /* |x| < 0x1p12 */
+    if u < 0x3f800000 + (12 << 23) {
+        /* 2 <= x < 0x1p12 */
         return logf(2.0 * x - 1.0 / (x + sqrtf(x * x - 1.0)));
     }
-    /* x >= 0x1p12 */
+    /* x >= 0x1p12 or x <= -2 or nan */
     return logf(x) + LN2;
 }
-- 
2.43.0


From b041f69cb6c2bd9970dcc38245642e59718c7efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 02/13] fix: expm1f overflows only above log(FLT_MAX)

The overflow threshold was 88.72168, below log(FLT_MAX) = 88.72283, so
representable results came back as infinity (and sinhf, which is built on
expm1f, as NaN).
---
 libm/src/math/expm1f.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/expm1f.rs b/libm/src/math/expm1f.rs
index 12c6f53..a347ce6 100644
--- a/libm/src/math/expm1f.rs
+++ b/libm/src/math/expm1f.rs
@@ -13,7 +13,7 @@
  * ====================================================
  */
 
-const O_THRESHOLD: f32 = 8.8721679688e+01; /* 0x42b17180 */
+const O_THRESHOLD: f32 = 8.8722831726e+01; /* 0x42b17217 */
 const LN2_HI: f32 = 6.9313812256e-01; /* 0x3f317180 */
 const LN2_LO: f32 = 9.0580006145e-06; /* 0x3717f7d1 */
 const INV_LN2: f32 = 1.4426950216e+00; /* 0x3fb8aa3b */
-- 
2.43.0


From a321af203fa122498d01c6abb215d0b641b7835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 03/13] fix: fmaf rounds once when the result is subnormal

The halfway test only looked at the bit pattern that is halfway between two
normal f32 values. Below f32::MIN_POSITIVE fewer bits are kept, so inexact f64
sums that fell on a subnormal tie were rounded twice. Round the wide result to
odd in that range.
---
 libm/src/math/fma_wide.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libm/src/math/fma_wide.rs b/libm/src/math/fma_wide.rs
index 08b78b0..a53e4c1 100644
--- a/libm/src/math/fma_wide.rs
+++ b/libm/src/math/fma_wide.rs
@@ -48,9 +48,12 @@ where
     let excess_prec = ui & ((one << prec_diff) - one);
     let halfway = one << (prec_diff - 1);
 
+    // A result that is subnormal in `F` keeps fewer bits, so halfway cases sit at a higher bit.
+    let subnormal = re < (B::EXP_BIAS as i32 + F::EXP_MIN) as u32;
+
     // Common case: the larger precision is fine if...
     // This is not a halfway case
-    if excess_prec != halfway
+    if (excess_prec != halfway && !subnormal)
         // Or the result is NaN
         || re == B::EXP_SAT
         // Or the result is exact
@@ -80,10 +83,14 @@ where
 
     let neg = ui >> (B::BITS - 1) != IntTy::<B>::ZERO;
     let err = if neg == (zb > xy) { xy - result + zb } else { zb - result + xy };
-    if neg == (err < B::ZERO) {
-        ui += one;
-    } else {
-        ui -= one;
+    // Round to odd: a halfway case always has an even significand, and an odd one cannot be rounded
+    // twice to the wrong side.
+    if ui & one == IntTy::<B>::ZERO {
+        if neg == (err < B::ZERO) {
+            ui += one;
+        } else {
+            ui -= one;
+        }
     }
 
     FpResult::ok(B::from_bits(ui).narrow())
-- 
2.43.0


From e13bde6ee59fe75773faf16482c9ca6b55d9c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 04/13] fix: fmaximum_num(-0.0, NaN) returns -0.0

The signed zero clause accepted a NaN with a clear sign bit as the larger
operand.
---
 libm/src/math/generic/fmaximum_num.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libm/src/math/generic/fmaximum_num.rs b/libm/src/math/generic/fmaximum_num.rs
index f7efdde..2366314 100644
--- a/libm/src/math/generic/fmaximum_num.rs
+++ b/libm/src/math/generic/fmaximum_num.rs
@@ -15,12 +15,14 @@ use super::super::Float;
 
 #[inline]
 pub fn fmaximum_num<F: Float>(x: F, y: F) -> F {
-    let res =
-        if x.is_nan() || x < y || (x.to_bits() == F::NEG_ZERO.to_bits() && y.is_sign_positive()) {
-            y
-        } else {
-            x
-        };
+    let res = if x.is_nan()
+        || x < y
+        || (x.to_bits() == F::NEG_ZERO.to_bits() && y.is_sign_positive() && !y.is_nan())
+    {
+        y
+    } else {
+        x
+    };
 
     // Canonicalize
     res * F::ONE
-- 
2.43.0


From 4ad209991912961052213556e20bd71c4581cac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 05/13] fix: powf underflows early for |y| > 2^27 and x just
 below one

The huge-|y| shortcut treated every |x| < 0x3f7ffff8 as far from one, but
(1 - 9 * 2^-24)^(2^27) is about 5e-32. The result only rounds to zero once
1 - |x| reaches 13 * 2^-24.
---
 libm/src/math/powf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/powf.rs b/libm/src/math/powf.rs
index 839c6c2..b29e8d0 100644
--- a/libm/src/math/powf.rs
+++ b/libm/src/math/powf.rs
@@ -181,7 +181,7 @@ pub fn powf(x: f32, y: f32) -> f32 {
     if iy > 0x4d000000 {
         /* if |y| > 2**27 */
         /* over/underflow if x is not close to one */
-        if ix < 0x3f7ffff8 {
+        if ix < 0x3f7ffff4 {
             return if hy < 0 { sn * HUGE * HUGE } else { sn * TINY * TINY };
         }
 
-- 
2.43.0


From 1373b3e7e481917a0f7435ffa09ec0db78d1144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 06/13] fix: pow loses accuracy for |y| > 2^31 and x near one

t = x - 1 has up to 32 significant bits there, so IVLN2_H * t is exact only
when IVLN2_H has at most 21 of them, as the comment at its use says. It had
24, and the rounded product cost up to a few hundred ulp.
---
 libm/src/math/pow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/pow.rs b/libm/src/math/pow.rs
index 80b2a24..6788ccf 100644
--- a/libm/src/math/pow.rs
+++ b/libm/src/math/pow.rs
@@ -86,8 +86,8 @@ const CP: f64 = 9.61796693925975554329e-01; /* 0x3feec709_dc3a03fd =2/(3ln2) */
 const CP_H: f64 = 9.61796700954437255859e-01; /* 0x3feec709_e0000000 =(float)cp */
 const CP_L: f64 = -7.02846165095275826516e-09; /* 0xbe3e2fe0_145b01f5 =tail of cp_h*/
 const IVLN2: f64 = 1.44269504088896338700e+00; /* 0x3ff71547_652b82fe =1/ln2 */
-const IVLN2_H: f64 = 1.44269502162933349609e+00; /* 0x3ff71547_60000000 =24b 1/ln2*/
-const IVLN2_L: f64 = 1.92596299112661746887e-08; /* 0x3e54ae0b_f85ddf44 =1/ln2 tail*/
+const IVLN2_H: f64 = 1.44269466400146484375e+00; /* 0x3ff71547_00000000 =21b 1/ln2*/
+const IVLN2_L: f64 = 3.76887498563609911445e-07; /* 0x3e994ae0_bf85ddf4 =1/ln2 tail*/
 
 /// Returns `x` to the power of `y` (f64).
 #[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]
-- 
2.43.0


From 8f7817f1b782b4423fae619824b6a90385aa793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 07/13] fix: yn and ynf overflow to -inf before the result does

---
 libm/src/math/jn.rs  | 3 ++-
 libm/src/math/jnf.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/jn.rs b/libm/src/math/jn.rs
index 31f8d9c..1b71a2d 100644
--- a/libm/src/math/jn.rs
+++ b/libm/src/math/jn.rs
@@ -329,7 +329,8 @@ pub fn yn(n: i32, x: f64) -> f64 {
         while i < nm1 && ib != 0xfff00000 {
             i += 1;
             temp = b;
-            b = (2.0 * (i as f64) / x) * b - a;
+            /* halved (exactly) so that the product cannot overflow before the subtraction */
+            b = 2.0 * ((2.0 * (i as f64) / x) * (0.5 * b) - 0.5 * a);
             ib = get_high_word(b);
             a = temp;
         }
diff --git a/libm/src/math/jnf.rs b/libm/src/math/jnf.rs
index 52cf7d8..31c5c82 100644
--- a/libm/src/math/jnf.rs
+++ b/libm/src/math/jnf.rs
@@ -244,7 +244,8 @@ pub fn ynf(n: i32, x: f32) -> f32 {
     while i < nm1 && ib != 0xff800000 {
         i += 1;
         temp = b;
-        b = (2.0 * (i as f32) / x) * b - a;
+        /* halved (exactly) so that the product cannot overflow before the subtraction */
+        b = 2.0 * ((2.0 * (i as f32) / x) * (0.5 * b) - 0.5 * a);
         ib = b.to_bits();
         a = temp;
     }
-- 
2.43.0


From b69b9b9a746afd317ef071f7f47ff216e98a9708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 08/13] fix: fma loses the sticky bit when the addend is far
 above the product

---
 libm/src/math/fma.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libm/src/math/fma.rs b/libm/src/math/fma.rs
index e0b3347..33a8524 100644
--- a/libm/src/math/fma.rs
+++ b/libm/src/math/fma.rs
@@ -93,9 +93,9 @@ where
                 // Exactly `sbits`, nothing to do
             } else if d < sbits {
                 // Remaining shift fits within `sbits`. Leave `z` in place, shift `x * y`
-                rlo = (rhi << (sbits - d)) | (rlo >> d);
-                // Set the sticky bit
-                rlo |= IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                // and set the sticky bit if anything is lost.
+                let sticky = IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                rlo = (rhi << (sbits - d)) | (rlo >> d) | sticky;
                 rhi = rhi >> d;
             } else {
                 // `z`'s magnitude is enough that `x * y` is irrelevant. It was nonzero, so set
-- 
2.43.0


From e6d5ed2a00b1137c7308ce44a9a3c67a9caef735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 09/13] fix: hex float parsing overflowed on exponents near or
 beyond the limits of i32

The decimal exponent saturated when multiplied but not when its digit was added, and
saturating the final exponent at the limits of i32 left the caller no room to adjust it:
either panics with overflow checks and misparses without them.
---
 libm/src/math/support/hex_float.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/libm/src/math/support/hex_float.rs b/libm/src/math/support/hex_float.rs
index 819e2f5..e172a90 100644
--- a/libm/src/math/support/hex_float.rs
+++ b/libm/src/math/support/hex_float.rs
@@ -290,7 +290,7 @@ const fn parse_hex(mut b: &[u8]) -> Result<Parsed, HexFloatParseError> {
         };
         some_digits = true;
         pexp = pexp.saturating_mul(10);
-        pexp += digit as u32;
+        pexp = pexp.saturating_add(digit as u32);
     }
 
     if !some_digits {
@@ -305,21 +305,17 @@ const fn parse_hex(mut b: &[u8]) -> Result<Parsed, HexFloatParseError> {
             e = (exp as i64) + (pexp as i64);
         };
 
-        exp = if e < i32::MIN as i64 {
-            i32::MIN
-        } else if e > i32::MAX as i64 {
-            i32::MAX
+        // Saturate well inside the range of `i32`, so that the caller can adjust the exponent
+        // without overflow. This is still far beyond the limits of every supported format.
+        const EXP_LIMIT: i64 = 1 << 30;
+        exp = if e < -EXP_LIMIT {
+            -EXP_LIMIT as i32
+        } else if e > EXP_LIMIT {
+            EXP_LIMIT as i32
         } else {
             e as i32
         };
     }
-    /* FIXME(msrv): once MSRV >= 1.66, replace the above workaround block with:
-    if negate_exp {
-        exp = exp.saturating_sub_unsigned(pexp);
-    } else {
-        exp = exp.saturating_add_unsigned(pexp);
-    };
-    */
 
     Ok(Parsed { sig, exp })
 }
-- 
2.43.0


From 61a2a241344b4752460fbdffbacefe25e353802c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 10/13] fix: hex float parsing wrapped huge exponents into
 range

The exponent field was shifted up without a range check, losing its high bits for formats with
many significand bits: 0x1p65536 parsed as a small finite f128 rather than overflowing.
---
 libm/src/math/support/hex_float.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libm/src/math/support/hex_float.rs b/libm/src/math/support/hex_float.rs
index e172a90..f36770d 100644
--- a/libm/src/math/support/hex_float.rs
+++ b/libm/src/math/support/hex_float.rs
@@ -155,7 +155,12 @@ const fn parse_finite(
     // Expressed as a multiple U of the smallest subnormal value:
     // X = U * 2^min_lsb, so U = sig * 2^(exp-min_lsb)
     let uexp = (exp - min_lsb) as u128;
-    let uexp = uexp << sig_bits;
+    // Anything above the largest exponent overflows below, the shift must not lose its high bits
+    let uexp = if uexp >> exp_bits == 0 {
+        uexp << sig_bits
+    } else {
+        1 << (exp_bits + sig_bits)
+    };
 
     // Note that it is possible for the exponent bits to equal 2 here
     // if the value rounded up, but that means the mantissa is all zeroes
-- 
2.43.0


From 5a9a15582332fbe5ce25a85819342f7e6b3a53a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 11/13] fix: i256::MAX was negative and i256 claimed to be
 unsigned

---
 libm/src/math/support/big.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/support/big.rs b/libm/src/math/support/big.rs
index eae0823..a32106a 100644
--- a/libm/src/math/support/big.rs
+++ b/libm/src/math/support/big.rs
@@ -61,12 +61,12 @@ impl MinInt for i256 {
 
     type Unsigned = u256;
 
-    const SIGNED: bool = false;
+    const SIGNED: bool = true;
     const BITS: u32 = 256;
     const ZERO: Self = Self { lo: 0, hi: 0 };
     const ONE: Self = Self { lo: 1, hi: 0 };
     const MIN: Self = Self { lo: 0, hi: 1 << 127 };
-    const MAX: Self = Self { lo: u128::MAX, hi: u128::MAX << 1 };
+    const MAX: Self = Self { lo: u128::MAX, hi: u128::MAX >> 1 };
 }
 
 macro_rules! impl_common {
-- 
2.43.0


From 044b514c0e7c2943c74435958385492566e99048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 12/13] fix: u256 and i256 compared the low limb first

---
 libm/src/math/support/big.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/libm/src/math/support/big.rs b/libm/src/math/support/big.rs
index a32106a..f6ebe22 100644
--- a/libm/src/math/support/big.rs
+++ b/libm/src/math/support/big.rs
@@ -3,7 +3,7 @@
 #[cfg(test)]
 mod tests;
 
-use core::ops;
+use core::{cmp, ops};
 
 use super::{DInt, HInt, Int, MinInt};
 
@@ -11,7 +11,7 @@ const U128_LO_MASK: u128 = u64::MAX as u128;
 
 /// A 256-bit unsigned integer represented as two 128-bit native-endian limbs.
 #[allow(non_camel_case_types)]
-#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
+#[derive(Clone, Copy, Debug, PartialEq)]
 pub struct u256 {
     pub lo: u128,
     pub hi: u128,
@@ -29,7 +29,7 @@ impl u256 {
 
 /// A 256-bit signed integer represented as two 128-bit native-endian limbs.
 #[allow(non_camel_case_types)]
-#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
+#[derive(Clone, Copy, Debug, PartialEq)]
 pub struct i256 {
     pub lo: u128,
     pub hi: u128,
@@ -43,6 +43,20 @@ impl i256 {
     }
 }
 
+// The high limb decides, so a derived implementation (which compares `lo` first) would be wrong.
+impl PartialOrd for u256 {
+    fn partial_cmp(&self, rhs: &Self) -> Option<cmp::Ordering> {
+        (self.hi, self.lo).partial_cmp(&(rhs.hi, rhs.lo))
+    }
+}
+
+// As for `u256`, with the sign in the high limb.
+impl PartialOrd for i256 {
+    fn partial_cmp(&self, rhs: &Self) -> Option<cmp::Ordering> {
+        (self.hi as i128, self.lo).partial_cmp(&(rhs.hi as i128, rhs.lo))
+    }
+}
+
 impl MinInt for u256 {
     type OtherSign = i256;
 
-- 
2.43.0


From 1a80b37f520722b19665a1aca708ea6943b971f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 13/13] fix: util panicked on negative hexadecimal integers

`parse` sends `-0x10` to `from_str_radix`, which only stripped the prefix of
unsigned text and unwrapped `None` for the signed one.
---
 crates/util/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/util/src/main.rs b/crates/util/src/main.rs
index ef70ec9..cbfc960 100644
--- a/crates/util/src/main.rs
+++ b/crates/util/src/main.rs
@@ -320,6 +320,12 @@ trait FromStrRadix: Sized {
 
 impl FromStrRadix for i32 {
     fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseIntError> {
+        // The sign comes before the radix prefix, e.g. `-0x10`.
+        if let Some(s) = s.strip_prefix('-') {
+            let s = strip_radix_prefix(s, radix);
+            return i32::from_str_radix(&format!("-{s}"), radix);
+        }
+
         let s = strip_radix_prefix(s, radix);
         i32::from_str_radix(s, radix)
     }
-- 
2.43.0

