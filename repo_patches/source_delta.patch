From 97f7c22187c9c0b88abb221e381a422efa281060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 01/21] fix: trunc() of |x| >= 2^32 and of NaN

The shift by the exponent wrapped around modulo 32, so that e.g.
trunc(6442450944.0) returned 4294967296.0, and trunc(NaN) returned infinity.
---
 src/float/trunc.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/float/trunc.rs b/src/float/trunc.rs
index 0c29a43..4a94a55 100644
--- a/src/float/trunc.rs
+++ b/src/float/trunc.rs
@@ -1,6 +1,6 @@
 //! Floating point whole number for a single-precision float.
 
-use super::{F32, MANTISSA_MASK};
+use super::{F32, MANTISSA_BITS, MANTISSA_MASK};
 
 impl F32 {
     /// Returns the integer part of a number.
@@ -13,6 +13,12 @@ impl F32 {
             return F32::ZERO.copysign(self);
         }
 
+        // no mantissa bit is fractional any more (or infinity/NaN), and shifting by the exponent
+        // would wrap around.
+        if exponent >= MANTISSA_BITS as i32 {
+            return self;
+        }
+
         let exponent_clamped = i32::max(exponent, 0) as u32;
 
         // find the part of the fraction that would be left over
-- 
2.43.0


From 8e55b0cae545342e62d8e759bb205cb49d7b72ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 02/21] fix: fract() of |x| >= 2^32, infinity and NaN

The shift by the exponent wrapped around modulo 32, so that e.g.
fract(6442450944.0) returned 0.5. fract() of NaN and infinity was a number.
---
 src/float/fract.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/float/fract.rs b/src/float/fract.rs
index c99a0b5..97b0a8c 100644
--- a/src/float/fract.rs
+++ b/src/float/fract.rs
@@ -14,6 +14,12 @@ impl F32 {
             return self;
         }
 
+        // there is no fraction left (or infinity/NaN, which have none: inf - inf is NaN), and
+        // shifting by the exponent would wrap around.
+        if exponent >= MANTISSA_BITS as i32 {
+            return (self - self).copysign(self);
+        }
+
         // find the part of the fraction that would be left over
         let fractional_part = x_bits.overflowing_shl(exponent as u32).0 & MANTISSA_MASK;
 
-- 
2.43.0


From f758728625711462394c86c6158c16ecf7c7fc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 03/21] fix: powf() of a negative base with exponents 1/2,
 1/4... or >= 2^32

The integer test took the powers of two below 1.0 for integers, so that
powf(-2.0, 0.5) returned a number instead of NaN, and large integers for
non-integers, because its shift wrapped around modulo 32.
---
 src/float.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/float.rs b/src/float.rs
index 2da35fc..a996d48 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -211,8 +211,13 @@ impl F32 {
         let exponent = self.extract_exponent_value();
         let self_bits = self.to_bits();
 
-        // if exponent is negative we shouldn't remove anything, this stops an opposite shift.
-        let exponent_clamped = i32::max(exponent, 0) as u32;
+        // with a negative exponent, only zero is an integer
+        if exponent < 0 {
+            return *self == Self::ZERO;
+        }
+
+        // with an exponent this large, every bit of the mantissa is part of the integer
+        let exponent_clamped = i32::min(exponent, MANTISSA_BITS as i32) as u32;
 
         // find the part of the fraction that would be left over
         let fractional_part = (self_bits).overflowing_shl(exponent_clamped).0 & MANTISSA_MASK;
-- 
2.43.0


From 1e8a3d805ab51aea92ce4f86b4510de2b4fe4ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 04/21] fix: floor() and ceil() outside of the i32 range, and
 of NaN

The conversion to i32 saturates, so that floor(1e10) returned 2147483648.0 and
floor(NaN) returned 0.0. As cos() and sin() reduce their argument with floor(),
they returned values as large as 1e38 (and infinities) for large arguments.
---
 src/float/floor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/float/floor.rs b/src/float/floor.rs
index 31025ee..6099a73 100644
--- a/src/float/floor.rs
+++ b/src/float/floor.rs
@@ -1,10 +1,15 @@
 //! Floating point floor approximation for a single-precision float.
 
-use super::F32;
+use super::{F32, MANTISSA_BITS};
 
 impl F32 {
     /// Returns the largest integer less than or equal to a number.
     pub fn floor(self) -> Self {
+        // already an integer (or infinity/NaN), and may not fit an i32
+        if self.extract_exponent_value() >= MANTISSA_BITS as i32 {
+            return self;
+        }
+
         let mut res = (self.0 as i32) as f32;
 
         if self.0 < res {
-- 
2.43.0


From eee6e5955cabca95a5d4b76a413c254a9a74a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 05/21] fix: round() of 0.49999997, of odd numbers above 2^23,
 and out of i32 range

Adding 0.5 is inexact in those cases: round(0.49999997) was 1.0 and
round(8388609.0) was 8388610.0. The conversion to i32 saturates, so that
round(1e10) was 2147483648.0 and round(NaN) was 0.0.
---
 src/float/round.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/float/round.rs b/src/float/round.rs
index 2db3f9b..ac69791 100644
--- a/src/float/round.rs
+++ b/src/float/round.rs
@@ -5,7 +5,13 @@ use super::F32;
 impl F32 {
     /// Returns the nearest integer to a number.
     pub fn round(self) -> Self {
-        Self(((self.0 + Self(0.5).copysign(self).0) as i32) as f32)
+        let whole = self.trunc();
+
+        if (self - whole).abs() >= 0.5 {
+            whole + Self::ONE.copysign(self)
+        } else {
+            whole
+        }
     }
 }
 
-- 
2.43.0


From 7526de1861f58c9d0a7ae159e06e3bc545d841ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 06/21] fix: inv() of negative numbers

The sign bit made the checked subtraction fail, so that inv() returned 0.0 for
every negative number.
---
 src/float/inv.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/float/inv.rs b/src/float/inv.rs
index 1751be0..621058c 100644
--- a/src/float/inv.rs
+++ b/src/float/inv.rs
@@ -14,8 +14,8 @@ impl F32 {
         // The constant 0x7f00_0000 corresponds to the bit pattern for 1.0 in IEEE 754 format.
         // Subtracting the bits of the original number from this constant effectively inverts the exponent,
         // resulting in an approximation of the reciprocal.
-        match 0x7f00_0000_u32.checked_sub(self.0.to_bits()) {
-            Some(result) => Self(f32::from_bits(result)),
+        match 0x7f00_0000_u32.checked_sub(self.abs().to_bits()) {
+            Some(result) => Self(f32::from_bits(result)).copysign(self),
             // Check if the value is too large for the approximation, NaN (e.g. 0x7fC0_0000) or infinity.
             None => {
                 if self.0.is_infinite() {
-- 
2.43.0


From ee5f1a7728b39d267654a45dd8870270aced8e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 07/21] fix: invsqrt() and asin() outside of their domain

The subtraction overflowed (a panic in debug builds, a wrapped around result in
release builds) for negative numbers below -0.23, so that asin(1.2) panicked.
---
 src/float/invsqrt.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/float/invsqrt.rs b/src/float/invsqrt.rs
index d85e9ce..96b40f4 100644
--- a/src/float/invsqrt.rs
+++ b/src/float/invsqrt.rs
@@ -6,8 +6,14 @@ use super::F32;
 
 impl F32 {
     /// Approximate inverse square root with an average deviation of ~5%.
+    ///
+    /// Returns [`Self::NAN`] if `self` is a negative number.
     pub fn invsqrt(self) -> Self {
-        Self::from_bits(0x5f37_5a86 - (self.to_bits() >> 1))
+        if self >= Self::ZERO {
+            Self::from_bits(0x5f37_5a86 - (self.abs().to_bits() >> 1))
+        } else {
+            Self::NAN
+        }
     }
 }
 
-- 
2.43.0


From 796068fd1032b891fddf1bac231946dc3d05a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 08/21] fix: sqrt() of -0.0 and infinity

sqrt(-0.0) was 2.8e19, and sqrt(infinity) 1.8e19.
---
 src/float/sqrt.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/float/sqrt.rs b/src/float/sqrt.rs
index 73c109b..21220a5 100644
--- a/src/float/sqrt.rs
+++ b/src/float/sqrt.rs
@@ -9,8 +9,10 @@ impl F32 {
     ///
     /// Returns [`Self::NAN`] if `self` is a negative number.
     pub fn sqrt(self) -> Self {
-        if self >= Self::ZERO {
-            Self::from_bits((self.to_bits() + 0x3f80_0000) >> 1)
+        if self == Self::INFINITY {
+            self
+        } else if self >= Self::ZERO {
+            Self::from_bits((self.abs().to_bits() + 0x3f80_0000) >> 1)
         } else {
             Self::NAN
         }
-- 
2.43.0


From 167c9baa636e031333cdd57da6972e2a7aeacde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 09/21] fix: exp() just above ln(f32::MAX), and of NaN

A result exponent of 128 is not representable, but was not taken for an
overflow: exp(88.8) panicked in debug builds and was NaN in release builds.
exp(NaN) was infinity.
---
 src/float/exp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/float/exp.rs b/src/float/exp.rs
index ef68faf..54dee31 100644
--- a/src/float/exp.rs
+++ b/src/float/exp.rs
@@ -18,6 +18,10 @@ impl F32 {
             return Self::ONE;
         }
 
+        if self.is_nan() {
+            return self;
+        }
+
         if (self - Self::ONE).abs() < f32::EPSILON {
             return consts::E.into();
         }
@@ -46,7 +50,7 @@ impl F32 {
             return Self::ZERO;
         }
 
-        if fract_exponent > ((EXPONENT_BIAS + 1) as i32) {
+        if fract_exponent > (EXPONENT_BIAS as i32) {
             return Self::INFINITY;
         }
 
-- 
2.43.0


From 8052c3d6b5ec17bfce93bb9e2c6e78557f93adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 10/21] fix: powi() of large exponents, of bases below 0.5, and
 of NaN

The final exponent overflowed (a panic in debug builds, a wrapped around result
in release builds) for large n, and i32::MIN has no absolute value. For bases
below 0.5 the result was taken to be out of range too early: powi(0.4999, 75)
was 0.0, powi(0.4999, -64) infinity. powi(NaN, n) was 0.0 or infinity.
---
 src/float/powi.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/float/powi.rs b/src/float/powi.rs
index b867125..c8462e1 100644
--- a/src/float/powi.rs
+++ b/src/float/powi.rs
@@ -12,7 +12,7 @@ impl F32 {
     /// Approximates a number raised to an integer power.
     pub fn powi(self, n: i32) -> Self {
         let mut base = self;
-        let mut abs_n = i32::abs(n);
+        let mut abs_n = n.unsigned_abs();
         let mut result = 1.0;
 
         if n < 0 {
@@ -30,10 +30,14 @@ impl F32 {
 
         // For values less than 2.0, but greater than 0.5 (1.0/2.0), you can multiply longer without
         // going over exponent, i.e. 1.1 multiplied against itself will grow slowly.
-        if !(0.5..2.0).contains(&self.abs().0) {
+        if self.abs() < 0.5 || self.abs() >= 2.0 {
             // Approximation if we end up outside of the range of floating point values,
             // then we end early
-            let approx_final_exponent = self.extract_exponent_value() * n;
+            // For |x| < 0.5 the exponent of x^n is between n times the exponent of x, and n times that
+            // plus one: only the latter tells that the result is out of range.
+            let exponent = self.extract_exponent_value();
+            let exponent = if exponent < 0 { exponent + 1 } else { exponent };
+            let approx_final_exponent = exponent.saturating_mul(n);
             let max_representable_exponent = 127;
             let min_representable_exponent = -126 - (MANTISSA_BITS as i32);
             if approx_final_exponent > max_representable_exponent
-- 
2.43.0


From 68ad9e76be1ae5c783078d55ebfa6c2626aa39ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 11/21] fix: atan() of |x| >= 2^64, and acos() of |x| < 2^-64

The square overflowed, so that the result was NaN instead of +-pi/2.
---
 src/float/atan.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/float/atan.rs b/src/float/atan.rs
index a54e2a7..d845b64 100644
--- a/src/float/atan.rs
+++ b/src/float/atan.rs
@@ -27,7 +27,11 @@ impl F32 {
         // Calculate the arctangent in the first quadrant
         let bx_a = (B * self).abs();
         let n = bx_a + self * self;
-        let atan_1q = n / (1.0 + bx_a + n);
+        let atan_1q = if n.is_infinite() {
+            Self::ONE
+        } else {
+            n / (1.0 + bx_a + n)
+        };
 
         // Restore the sign bit and convert to float
         Self::from_bits(ux_s | atan_1q.to_bits())
-- 
2.43.0


From aab0320e5005f17199e4bbd989d5227a08bd85f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 12/21] fix: atan2(0, 0) is 0, as documented, rather than NaN

---
 src/float/atan2.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/float/atan2.rs b/src/float/atan2.rs
index f071be9..5f001fe 100644
--- a/src/float/atan2.rs
+++ b/src/float/atan2.rs
@@ -27,6 +27,11 @@ impl F32 {
         let y = self;
         let x = rhs;
 
+        // 0/0 below is NaN
+        if x == Self::ZERO && y == Self::ZERO {
+            return Self::ZERO;
+        }
+
         // Extract sign bits from floating point values
         let ux_s = SIGN_MASK & x.to_bits();
         let uy_s = SIGN_MASK & y.to_bits();
-- 
2.43.0


From f3446a1cbeae3d9d28bf1c6482ad441e8fdf2659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 13/21] fix: recip() of |x| > 1.6e38

The subtraction wrapped around, so that the result was NaN or infinity instead
of (nearly) zero.
---
 src/float/recip.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/float/recip.rs b/src/float/recip.rs
index 3e14841..936d520 100644
--- a/src/float/recip.rs
+++ b/src/float/recip.rs
@@ -10,6 +10,11 @@ impl F32 {
         let sx = if x < 0.0 { F32(-1.0) } else { F32(1.0) };
         x *= sx;
 
+        // too large for the approximation (or infinite): 1/x underflows
+        if x > f32::from_bits(0x7EF1_27EA) {
+            return F32::ZERO * sx;
+        }
+
         let mut v = F32(f32::from_bits(0x7EF1_27EAu32.wrapping_sub(x.to_bits())));
         let w = x * v;
 
-- 
2.43.0


From 17c93ca0b9fb519e1901da7ec5cda94903c83392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 14/21] fix: building with the quaternion feature, but without
 the vector feature

Quaternion::axis_angle and ::rotate are documented to need the vector feature,
but were not conditional on it.
---
 src/quaternion.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 668a5c3..177a499 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -135,6 +135,7 @@ impl Quaternion {
     }
 
     /// Compute a quaternion for the given axis vector and angle.
+    #[cfg(feature = "vector")]
     #[cfg_attr(docsrs, doc(cfg(feature = "vector")))]
     pub fn axis_angle<C>(v: Vector3d<C>, theta: C) -> Self
     where
@@ -153,6 +154,7 @@ impl Quaternion {
     }
 
     /// Rotate a 3D vector using this quaternion, assumes the quaternion is of unit length.
+    #[cfg(feature = "vector")]
     #[cfg_attr(docsrs, doc(cfg(feature = "vector")))]
     pub fn rotate<C>(self, v: Vector3d<C>) -> F32x3
     where
-- 
2.43.0


From 3a7a299663847f37bad58aa7f0a8bf47d394ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 15/21] fix: Quaternion::to_euler() at a pitch of +-90 degrees

If rounding took the sine of the pitch above 1.0, the pitch was 0 degrees.
---
 src/quaternion.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 177a499..1279939 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -204,7 +204,9 @@ impl Quaternion {
     pub fn to_euler(&self) -> (f32, f32, f32) {
         let r = F32(2. * (self.0 * self.1 + self.2 * self.3))
             .atan2(F32(1. - 2. * (self.1 * self.1 + self.2 * self.2)));
-        let p = F32(2. * (self.0 * self.2 - self.1 * self.3)).asin();
+        let sin_p = 2. * (self.0 * self.2 - self.1 * self.3);
+        // rounding may take it slightly out of the domain of `asin`
+        let p = F32(sin_p.clamp(-1.0, 1.0)).asin();
         let y = F32(2. * (self.0 * self.3 + self.1 * self.2))
             .atan2(F32(1. - 2. * (self.2 * self.2 + self.3 * self.3)));
 
-- 
2.43.0


From c693aa99648f3355e71f5d8eb5a322159f0c89d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 16/21] fix: Quaternion::from_two_vectors() for (nearly)
 opposite vectors

The square root is up to 6% too large, so that the sum of it and of the dot
product of opposite vectors was rarely near zero, and the result was the
identity instead of a half-turn, e.g. for (1, 1, 1) and (-1, -1, -1).
---
 src/quaternion.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 1279939..a32e23d 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -67,7 +67,16 @@ impl Quaternion {
         C: Component + Into<f32>,
     {
         // Implementation from http://lolengine.net/blog/2014/02/24/quaternion-from-two-vectors-final
-        let n_uv = F32(u.dot(u).into() * v.dot(v).into()).sqrt();
+        let n_uv_sq = u.dot(u).into() * v.dot(v).into();
+        let mut n_uv = F32(n_uv_sq).sqrt();
+
+        // The approximation alone is not good enough to tell opposite vectors: Newton's method
+        if n_uv_sq > f32::MIN_POSITIVE {
+            for _ in 0..3 {
+                n_uv = (n_uv + n_uv_sq / n_uv) * 0.5;
+            }
+        }
+
         let mut realpart = n_uv + u.dot(v).into();
 
         let w = if realpart < 1e-6 * n_uv {
-- 
2.43.0


From 88242ba6c5b616e5297c001d452c1f30b2076acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 17/21] fix: ln() of x < 1, which was off by up to 0.12

It inverted x with inv(), which is up to 12% off, and which the comment above says
not to use. The test vectors below 1 divide the error by a negative number, so that
they accept any value.
---
 src/float/ln.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/float/ln.rs b/src/float/ln.rs
index f3990e3..d163485 100644
--- a/src/float/ln.rs
+++ b/src/float/ln.rs
@@ -24,7 +24,11 @@ impl F32 {
 
         // Note: we could use the fast inverse approximation here found in super::inv::inv_approx, but
         // the precision of such an approximation is assumed not good enough.
-        let x_working = if x_less_than_1 { self.inv() } else { self };
+        let x_working = if x_less_than_1 {
+            Self::ONE / self.0.max(f32::MIN_POSITIVE)
+        } else {
+            self
+        };
 
         // according to the SO post ln(x) = ln((2^n)*y)= ln(2^n) + ln(y) = ln(2) * n + ln(y)
         // get exponent value
-- 
2.43.0


From a98944419eaf5f58311ffe1273bb48ee8f4190be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 18/21] fix: Quaternion::from_two_vectors() of integer vectors,
 whose dot product overflows

An i8 vector of length 12 was enough to panic (or to wrap around in release builds).
---
 src/quaternion.rs | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index a32e23d..53cf3bb 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -66,8 +66,20 @@ impl Quaternion {
     where
         C: Component + Into<f32>,
     {
+        // The products of integer components may not fit the component type
+        let u = F32x3 {
+            x: u.x.into(),
+            y: u.y.into(),
+            z: u.z.into(),
+        };
+        let v = F32x3 {
+            x: v.x.into(),
+            y: v.y.into(),
+            z: v.z.into(),
+        };
+
         // Implementation from http://lolengine.net/blog/2014/02/24/quaternion-from-two-vectors-final
-        let n_uv_sq = u.dot(u).into() * v.dot(v).into();
+        let n_uv_sq = u.dot(u) * v.dot(v);
         let mut n_uv = F32(n_uv_sq).sqrt();
 
         // The approximation alone is not good enough to tell opposite vectors: Newton's method
@@ -77,34 +89,26 @@ impl Quaternion {
             }
         }
 
-        let mut realpart = n_uv + u.dot(v).into();
+        let mut realpart = n_uv + u.dot(v);
 
         let w = if realpart < 1e-6 * n_uv {
             realpart = F32(0.);
 
-            if F32(u.x.into()).abs() > F32(u.z.into()).abs() {
+            if F32(u.x).abs() > F32(u.z).abs() {
                 Vector3d {
-                    x: -u.y.into(),
-                    y: u.x.into(),
+                    x: -u.y,
+                    y: u.x,
                     z: 0.,
                 }
             } else {
                 Vector3d {
                     x: 0.,
-                    y: -u.z.into(),
-                    z: u.y.into(),
+                    y: -u.z,
+                    z: u.y,
                 }
             }
         } else {
-            F32x3 {
-                x: u.x.into(),
-                y: u.y.into(),
-                z: u.z.into(),
-            } * F32x3 {
-                x: v.x.into(),
-                y: v.y.into(),
-                z: v.z.into(),
-            }
+            u * v
         };
 
         let q = Quaternion(realpart.0, w.x, w.y, w.z);
-- 
2.43.0


From 2a96e062c3d476a2fe359401c1516f30eec6f7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 19/21] fix: cos() and sin() outside of [-1, 1] for some |x| >
 2^24

---
 src/float/cos.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/float/cos.rs b/src/float/cos.rs
index 7925883..00d40b9 100644
--- a/src/float/cos.rs
+++ b/src/float/cos.rs
@@ -226,6 +226,7 @@ impl F32 {
     pub fn cos(self) -> Self {
         let mut x = self;
         x *= FRAC_1_PI / 2.0;
+        x = x.fract();
         x -= 0.25 + (x + 0.25).floor().0;
         x *= 16.0 * (x.abs() - 0.5);
         x += 0.225 * x * (x.abs() - 1.0);
-- 
2.43.0


From 8bfe441f5932003af87704a9ab95696a52ff58f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 20/21] fix: {:.2} and other formatter options, which F32
 ignored

---
 src/float.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/float.rs b/src/float.rs
index a996d48..93a5777 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -291,7 +291,7 @@ impl AddAssign<F32> for f32 {
 impl Display for F32 {
     #[inline]
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "{}", self.0)
+        Display::fmt(&self.0, fmt)
     }
 }
 
@@ -397,7 +397,7 @@ impl FromStr for F32 {
 impl LowerExp for F32 {
     #[inline]
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{:e}", self.0)
+        LowerExp::fmt(&self.0, f)
     }
 }
 
@@ -594,7 +594,7 @@ impl Sum for F32 {
 impl UpperExp for F32 {
     #[inline]
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{:E}", self.0)
+        UpperExp::fmt(&self.0, f)
     }
 }
 
-- 
2.43.0


From 6192a034a53b897c15c84c1b7aa1fedddc60b69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 21/21] fix: mean() of more than 2^31 - 1 items, whose count
 overflows

---
 src/statistics/mean.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/mean.rs b/src/statistics/mean.rs
index 9f07aca..52bd808 100644
--- a/src/statistics/mean.rs
+++ b/src/statistics/mean.rs
@@ -14,7 +14,7 @@ where
     type Result = f32;
 
     fn mean(self) -> f32 {
-        let mut num_items = 0;
+        let mut num_items = 0u64;
         let mut sum = 0.0;
 
         for item in self {
-- 
2.43.0

