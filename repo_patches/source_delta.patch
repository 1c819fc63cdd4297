From 9fc6ac52867b09237a042d855987393961d5e06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:20 +0000
Subject: [PATCH 01/27] fix: V3 * M33 is the row vector times the matrix, as
 for the other sizes

---
 src/vector3.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector3.rs b/src/vector3.rs
index 6d7fd81..1be6593 100644
--- a/src/vector3.rs
+++ b/src/vector3.rs
@@ -205,9 +205,9 @@ impl<T: Num + Copy> Mul<M33<T>> for V3<T> {
     #[inline]
     fn mul(self, rhs: M33<T>) -> V3<T> {
         Self::new_from(
-            rhs[(0, 0)] * self[0] + rhs[(0, 1)] * self[1] + rhs[(0, 2)] * self[2],
-            rhs[(1, 0)] * self[0] + rhs[(1, 1)] * self[1] + rhs[(1, 2)] * self[2],
-            rhs[(2, 0)] * self[0] + rhs[(2, 1)] * self[1] + rhs[(2, 2)] * self[2])
+            self[0] * rhs[(0, 0)] + self[1] * rhs[(1, 0)] + self[2] * rhs[(2, 0)],
+            self[0] * rhs[(0, 1)] + self[1] * rhs[(1, 1)] + self[2] * rhs[(2, 1)],
+            self[0] * rhs[(0, 2)] + self[1] * rhs[(1, 2)] + self[2] * rhs[(2, 2)])
     }
 }
 
-- 
2.43.0


From 2b7e4b04bd2f6ab33c96120bdc6590501f5a9c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:41 +0000
Subject: [PATCH 02/27] fix: norm_inf takes the largest magnitude, not the
 largest element

---
 src/slices_methods.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/slices_methods.rs b/src/slices_methods.rs
index 257db2a..fdc64db 100644
--- a/src/slices_methods.rs
+++ b/src/slices_methods.rs
@@ -66,7 +66,13 @@ pub fn find_max_min<T: core::cmp::PartialOrd + Copy>(slice: &[T]) -> MaxMin<T> {
 /// calculate the inf-norm of the slice
 pub fn norm_inf<T: Num + Copy + core::cmp::PartialOrd>(slice: &[T]) -> T {
     let max_min = find_max_min(slice);
-    max_min.max.0
+    let (max, min) = (max_min.max.0, max_min.min.0);
+    // the element of largest magnitude can be the most negative one
+    if min < T::zero() && T::zero() - min > max {
+        T::zero() - min
+    } else {
+        max
+    }
 }
 
 /// calculate the l-norm of the slice
-- 
2.43.0


From 218505f824043b36aead91624edc1c2f43a11c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:41 +0000
Subject: [PATCH 03/27] fix: nearly_equal compares absolutely below the
 smallest normal number

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 7017074..0da6633 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -47,7 +47,7 @@ pub fn nearly_equal<T: Float>(a: T, b: T, epsilon: T) -> bool {
     // short-cut, handles infinity
     if a == b {
         true
-    } else if a == zero || b == zero || (abs_a + abs_b < T::min_value()) {
+    } else if a == zero || b == zero || (abs_a + abs_b < T::min_positive_value()) {
         // a or b is zero or both are extremely close to it
         // relative error is less meaningful here
         abs_diff < epsilon
-- 
2.43.0


From baffcc9b16a22957e238ca459efbaedb2b06b5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:09 +0000
Subject: [PATCH 04/27] fix: Quaternion equality compares components, not the
 normalized flag

---
 src/quaternion.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 909d115..9d0af81 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -40,7 +40,7 @@ use crate::utils::nearly_zero;
 use crate::traits::LinearAlgebra;
 
 /// Quaternion type
-#[derive(Copy, Debug, Clone, PartialEq)]
+#[derive(Copy, Debug, Clone)]
 #[repr(C)]
 pub struct Quaternion<T> {
     /// Scalar part
@@ -51,6 +51,13 @@ pub struct Quaternion<T> {
     normalized: bool
 }
 
+// NOTE: two Quaternions are equal when their components are, the flag only records how they were made
+impl<T: PartialEq> PartialEq for Quaternion<T> {
+    fn eq(&self, rhs: &Self) -> bool {
+        self.q0 == rhs.q0 && self.q == rhs.q
+    }
+}
+
 impl<T> Quaternion<T> {
 
     /// Construct a new Quaternion from a number(real part) and a vector(imag part)
-- 
2.43.0


From b9879030b0b55a28376a8434e3e9db5c5568d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:11 +0000
Subject: [PATCH 05/27] fix: DualQuaternion equality compares components, not
 the normalized flag

---
 src/dual_quaternion.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 08a9530..11b4444 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -40,7 +40,7 @@ use core::ops::{Add, Div, Mul, Neg, Sub};
 use num::traits::FloatConst;
 use num::{Float, Num, One, Signed, Zero};
 
-#[derive(Copy, Debug, Clone, PartialEq)]
+#[derive(Copy, Debug, Clone)]
 pub struct DualQuaternion<T> {
     /// the real part
     q_real: Quaternion<T>,
@@ -50,6 +50,13 @@ pub struct DualQuaternion<T> {
     normalized: bool,
 }
 
+// NOTE: two DualQuaternions are equal when their components are, the flag only records how they were made
+impl<T: PartialEq> PartialEq for DualQuaternion<T> {
+    fn eq(&self, rhs: &Self) -> bool {
+        self.q_real == rhs.q_real && self.q_dual == rhs.q_dual
+    }
+}
+
 /// Dual Quaternion inplementation
 impl<T> DualQuaternion<T> {
     pub const fn new(q_real: Quaternion<T>, q_dual: Quaternion<T>) -> Self {
-- 
2.43.0


From 5e3c8afe9debdaf470b273183e4364b5714e6968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:36 +0000
Subject: [PATCH 06/27] fix: rotation_to_euler treats pitches within rounding
 of a quarter turn as the singularity

---
 src/transformations.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index ffee3f1..178cd2c 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -167,13 +167,17 @@ pub fn rotation_to_euler<T: Float + FloatConst>(r: &M33<T>) -> (T, T, T) {
         (r[(0, 0)] * r[(0, 0)] + r[(1, 0)] * r[(1, 0)]).sqrt(),
     );
 
+    // NOTE: near the singularity yay and roll are the quotients of numbers of the size of the
+    // rounding errors, so it begins where those errors dominate
+    let tol = T::epsilon().sqrt();
+
     // singularity
-    if nearly_equal(pitch, -one * T::FRAC_PI_2(), T::epsilon()) {
+    if nearly_equal(pitch, -one * T::FRAC_PI_2(), tol) {
         let yay = T::atan2(-r[(1, 2)], -r[(0, 2)]);
         let roll = T::zero();
         (yay, pitch, roll)
     // singularity
-    } else if nearly_equal(pitch, T::FRAC_PI_2(), T::epsilon()) {
+    } else if nearly_equal(pitch, T::FRAC_PI_2(), tol) {
         let yay = T::atan2(r[(1, 2)], r[(0, 2)]);
         let roll = T::zero();
         (yay, pitch, roll)
-- 
2.43.0


From 0017c4ac75e114ade0d60ce7a092ced767fdc016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:32 +0000
Subject: [PATCH 07/27] fix: slerp between nearly equal or opposite quaternions

---
 src/quaternion.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 9d0af81..9e18d5f 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -454,27 +454,23 @@ impl<T: Float> Quaternion<T> {
         let mut result = Quaternion::zero();
         // calculate the angle betwen two unit Quaternions via dot product
         let mut cos_half_theta = a.dot(b);
-        // if a = b or a = -b then theta(the angle between) = 0 then we can return a
-        if cos_half_theta.abs() >= one {
-            return a
-        }
         let mut reverse_a = false;
         // allways follow the shortest path
         if cos_half_theta < T::zero() {
             reverse_a = true;
             cos_half_theta = -cos_half_theta;
         }
+        // the dot product of two unit Quaternions can exceed one by rounding
+        if cos_half_theta > one {
+            cos_half_theta = one;
+        }
         let half_theta     = T::acos(cos_half_theta);
-        let sin_half_theta = T::sqrt(one - cos_half_theta * cos_half_theta);
+        let sin_half_theta = T::sin(half_theta);
+        // when a and b(or a and -b) are almost the same rotation the arc is almost a line
         // TODO(elsuizo:2021-04-24): maybe here the comparison could be with epsilon
         if sin_half_theta.abs() < T::from(0.001).unwrap() {
-            if !reverse_a {
-                result.q0   = (one - t) * a.q0 + t * b.q0;
-                result.q[0] = (one - t) * a.q[0] + t * b.q[0];
-                result.q[1] = (one - t) * a.q[1] + t * b.q[2];
-                result.q[2] = (one - t) * a.q[2] + t * b.q[1];
-            }
-            return result
+            let t_b = if reverse_a { -t } else { t };
+            return (a * (one - t) + b * t_b).normalize_q()
         }
         let aux1 = T::sin((one - t) * half_theta) / sin_half_theta;
         let aux2 = T::sin(t * half_theta) / sin_half_theta;
-- 
2.43.0


From e4adf7a0f97478853b61e86e69f3d14195a349a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:27 +0000
Subject: [PATCH 08/27] fix: dividing dual quaternions multiplies by the
 inverse of the divisor

---
 src/dual_quaternion.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 11b4444..270a696 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -145,14 +145,12 @@ impl<T: Num + Copy> Mul<T> for DualQuaternion<T> {
 }
 
 // dq / dq
+#[allow(clippy::suspicious_arithmetic_impl)]
 impl<T: Float + Signed> Div for DualQuaternion<T> {
     type Output = Self;
 
     fn div(self, rhs: Self) -> Self::Output {
-        let rhs_real_sqr = rhs.q_real * rhs.q_real;
-        let prod_real = self.q_real * rhs.q_real / rhs_real_sqr;
-        let prod_dual = (rhs.q_real * self.q_dual - self.q_real * rhs.q_dual) / rhs_real_sqr;
-        Self::new(prod_real, prod_dual)
+        self * rhs.inverse()
     }
 }
 
-- 
2.43.0


From 3738e4dce32fd27c8002c3ee7b75b969ee16eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:54 +0000
Subject: [PATCH 09/27] fix: normalising a dual quaternion divides by its
 dual-number norm

---
 src/dual_quaternion.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 270a696..5db2388 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -366,7 +366,9 @@ impl<T: Float + FloatConst + core::iter::Sum> DualQuaternion<T> {
             if !nearly_zero(norm_q_real) {
                 let mut result = Self::one();
                 result.q_real = self.q_real / norm_q_real;
-                result.q_dual = self.q_dual / norm_q_real;
+                // the part of the dual along the real belongs to the (dual number) norm
+                let q_dual = self.q_dual / norm_q_real;
+                result.q_dual = q_dual - result.q_real * result.q_real.dot(q_dual);
                 result.normalized = true;
                 Some(result)
             } else {
-- 
2.43.0


From eb8b1e85515116548ec016dd3858f6cbb285e760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:34 +0000
Subject: [PATCH 10/27] fix: the YZX Euler sequence is the product about y, z
 and x

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 178cd2c..8fb5794 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -140,7 +140,7 @@ pub fn euler_to_rotation<T: Float>(yay: T, pitch: T, roll: T, s: Option<EulerSeq
         Some(EulerSeq::XZY) => rotx(yay) * rotz(pitch) * roty(roll),
         Some(EulerSeq::YXY) => roty(yay) * rotx(pitch) * roty(roll),
         Some(EulerSeq::YXZ) => roty(yay) * rotx(pitch) * rotz(roll),
-        Some(EulerSeq::YZX) => rotx(yay) * roty(pitch) * rotz(roll),
+        Some(EulerSeq::YZX) => roty(yay) * rotz(pitch) * rotx(roll),
         Some(EulerSeq::YZY) => roty(yay) * rotz(pitch) * roty(roll),
         Some(EulerSeq::ZXY) => rotz(yay) * rotx(pitch) * roty(roll),
         Some(EulerSeq::ZXZ) => rotz(yay) * rotx(pitch) * rotz(roll),
-- 
2.43.0


From 736972ee7d63f4437a22ca93f60117b427916882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:05 +0000
Subject: [PATCH 11/27] fix: matrix_log of a half turn about the x axis

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 8fb5794..2605649 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -463,7 +463,7 @@ pub fn matrix_log<T: Float + core::iter::Sum + FloatConst>(r: &M33<T>) -> M33<T>
                 * (one / T::sqrt(two * (one + r[(1, 1)])));
             skew_from_vec(&(omega * T::PI()))
         } else {
-            let omega = V3::new_from(one + r[(0, 0)], one + r[(1, 0)], r[(2, 0)])
+            let omega = V3::new_from(one + r[(0, 0)], r[(1, 0)], r[(2, 0)])
                 * (one / T::sqrt(two * (one + r[(0, 0)])));
             skew_from_vec(&(omega * T::PI()))
         }
-- 
2.43.0


From 7f65e28c67424e4c118e6d32db7fae6edee15ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:31 +0000
Subject: [PATCH 12/27] fix: matrix_log near half turns and near the identity

---
 src/transformations.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 2605649..bf91334 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -450,15 +450,17 @@ pub fn matrix_exponential<T: Float>(so3: &M33<T>) -> M33<T> {
 pub fn matrix_log<T: Float + core::iter::Sum + FloatConst>(r: &M33<T>) -> M33<T> {
     let one = T::one();
     let two = one + one;
-    let angle = (r.trace() - one) / two;
-    if angle >= one {
-        M33::zeros()
-    } else if angle <= -one {
-        if !nearly_zero(one + r[(2, 2)]) {
+    let cos = (r.trace() - one) / two;
+    let skew = (*r - r.transpose()) / two;
+    let sin = skew_to_vec(&skew).norm2();
+    if cos < T::zero() && sin < T::epsilon().sqrt() {
+        // NOTE: near a half turn the skew part vanishes, so the axis comes from the column of the
+        // largest diagonal element
+        if r[(2, 2)] >= r[(1, 1)] && r[(2, 2)] >= r[(0, 0)] {
             let omega = V3::new_from(r[(0, 2)], r[(1, 2)], one + r[(2, 2)])
                 * (one / T::sqrt(two * (one + r[(2, 2)])));
             skew_from_vec(&(omega * T::PI()))
-        } else if !nearly_zero(one + r[(1, 1)]) {
+        } else if r[(1, 1)] >= r[(0, 0)] {
             let omega = V3::new_from(r[(0, 1)], one + r[(1, 1)], r[(2, 1)])
                 * (one / T::sqrt(two * (one + r[(1, 1)])));
             skew_from_vec(&(omega * T::PI()))
@@ -467,10 +469,11 @@ pub fn matrix_log<T: Float + core::iter::Sum + FloatConst>(r: &M33<T>) -> M33<T>
                 * (one / T::sqrt(two * (one + r[(0, 0)])));
             skew_from_vec(&(omega * T::PI()))
         }
+    } else if nearly_zero(sin) {
+        M33::zeros()
     } else {
-        let theta = T::acos(angle);
-        // TODO(elsuizo:2021-05-10): esto esta bien???
-        (*r - r.transpose()) * (theta / two / T::sin(theta))
+        // NOTE: the arc cosine loses half of the digits near its ends
+        skew * (T::atan2(sin, cos) / sin)
     }
 }
 
-- 
2.43.0


From efaca0094c97ce63c7d0214b3009ded1964cd8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:41 +0000
Subject: [PATCH 13/27] fix: matrix_exponential6 of a pure translation

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index bf91334..d5014c6 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -583,7 +583,7 @@ pub fn matrix_exponential6<T: Float>(se3: &M44<T>) -> M44<T> {
     let omega_theta = skew_to_vec(&skew_omega);
     // NOTE(elsuizo:2021-05-11): if w = 0 ---> "pitch" == infinity and |v| = 1 ---> theta represents only a linear distance
     if nearly_zero(omega_theta.norm2()) {
-        m44_new!( one,  zero,  one, v[0];
+        m44_new!( one,  zero, zero, v[0];
                  zero,   one, zero, v[1];
                  zero,  zero,  one, v[2];
                  zero,  zero, zero, one)
-- 
2.43.0


From c473cc267d67111ae438e2a26358d01003aeeff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:32 +0000
Subject: [PATCH 14/27] fix: matrix_log6 takes the angle from the rotation
 logarithm

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index d5014c6..e7c9423 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -625,7 +625,7 @@ pub fn matrix_log6<T: Float + core::iter::Sum + FloatConst>(t: &M44<T>) -> M44<T
                  zero, zero, zero, p[2];
                  zero, zero, zero, zero)
     } else {
-        let theta = T::acos((r.trace() - one) / two);
+        let theta = skew_to_vec(&omega).norm2();
         let cot = one / T::tan(theta / two);
         let v =
             (M33::identity() - omega / two + omega * omega * (one / theta - cot / two) / theta) * p;
-- 
2.43.0


From 4a63e196cc00764b88a67753f33072223c64935b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:58 +0000
Subject: [PATCH 15/27] fix: powers of dual quaternions with no rotation, or a
 real part beyond one

---
 src/dual_quaternion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 5db2388..ed825c9 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -246,10 +246,10 @@ impl<T: Float + Signed> DualQuaternion<T> {
     pub fn pow(&self, exponent: T) -> Self {
         let one = T::one();
         let two = one + one;
-        let theta = two * T::acos(self.real().real());
+        let theta = self.real().get_angle();
         let (s, c) = (theta / two).sin_cos();
-        if nearly_zero(theta) {
-            Self::new_from_point(&(self.get_translation() * exponent))
+        if nearly_zero(s) {
+            Self::new_from_translation(&(self.get_translation() * exponent))
         } else {
             let s0 = self.real().imag() / s;
             let d = self.dual().real() * -two / s;
-- 
2.43.0


From 01902481bb1aaffe0d900ae29fe6fb0c1cf17782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:59 +0000
Subject: [PATCH 16/27] fix: screw_lerp takes the shorter screw and keeps the
 first pose

---
 src/dual_quaternion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index ed825c9..111be76 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -280,8 +280,8 @@ impl<T: Float + Signed> DualQuaternion<T> {
         let mut start = *begin;
         // TODO(elsuizo:2021-05-23): this is from the python implementation that refers to a paper
         // that "ensure we always find closest solution, See Kavan and Zara 2005"
-        if (start.real() * end.real()).real() < T::zero() {
-            start.q_real = begin.real() * -one;
+        if start.real().dot(end.real()) < T::zero() {
+            start = *begin * -one;
         }
         start * (start.inverse() * *end).pow(tau)
     }
-- 
2.43.0


From d634cb14938bc1a4ead064cbd08d6d92b08896b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:00 +0000
Subject: [PATCH 17/27] fix: screw parameters of a translation with the
 opposite quaternion sign

---
 src/dual_quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 111be76..33a5ae4 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -191,7 +191,7 @@ impl<T: Float + Signed> DualQuaternion<T> {
         let theta = self.real().get_angle();
         let t = self.get_translation();
 
-        if !nearly_zero(theta) {
+        if !nearly_zero(T::sin(theta / two)) {
             let l = self.real().imag() / T::sin(theta / two);
             let d = t * l;
             let cot = one / T::tan(theta / two);
-- 
2.43.0


From 03c2ecce4def3127c0a2652c0e46a9848e678115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:01 +0000
Subject: [PATCH 18/27] fix: the logarithm of a dual quaternion is half its
 twist

---
 src/dual_quaternion.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 33a5ae4..914a56d 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -292,10 +292,16 @@ impl<T: Float + Signed> DualQuaternion<T> {
             let one = T::one();
             let two = one + one;
             let half = one / two;
-            let (axis, angle) = self.real().axis_angle();
-            let q_real = Quaternion::new_imag(&(axis.expect("there is no axis") * half * angle));
-            let q_dual = Quaternion::new_imag(&(self.get_translation() * half));
-            Some(DualQuaternion::new(q_real, q_dual))
+            let (real, dual) = if self.real().get_axis().is_some() {
+                let (l, m, theta, d) = self.get_screw_parameters();
+                (l * (theta * half), m * (theta * half) + l * (d * half))
+            } else {
+                (V3::zeros(), self.get_translation() * half)
+            };
+            Some(DualQuaternion::new(
+                Quaternion::new_imag(&real),
+                Quaternion::new_imag(&dual),
+            ))
         } else {
             None
         }
-- 
2.43.0


From cfd05a765db37a102ac3241b708114f964b87380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:01 +0000
Subject: [PATCH 19/27] fix: the rotation predicates check orthogonality,
 within rounding

---
 src/utils.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 0da6633..0a8cde5 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -32,6 +32,7 @@ use crate::dual_quaternion::DualQuaternion;
 use crate::matrix3x3::M33;
 use crate::matrix4x4::M44;
 use crate::traits::LinearAlgebra;
+use crate::transformations::get_parts_raw;
 use num::Float;
 // NOTE(elsuizo:2020-06-02): the following function
 // is a translation of the implementation that is here:
@@ -75,14 +76,19 @@ pub fn compare_floats<T: Float>(num1: T, num2: T, tol: T) -> bool {
 
 /// utility function to verify if a Matrix is a propper rotation matrix
 pub fn is_rotation<T: Float + core::iter::Sum>(r: M33<T>) -> bool {
-    let r2 = r * r;
-    nearly_equal(r.det(), T::one(), T::epsilon()) && nearly_equal(r2.det(), T::one(), T::epsilon())
+    let tol = T::epsilon().sqrt();
+    compare_floats(r.det(), T::one(), tol)
+        && compare_floats((r * r.transpose() - M33::identity()).norm2(), T::zero(), tol)
 }
 
 pub fn is_rotation_h<T: Float + core::iter::Sum>(r: M44<T>) -> bool {
-    let r2 = r * r;
-    let eps = T::from(1e-6).unwrap();
-    nearly_equal(r.det(), T::one(), eps) && nearly_equal(r2.det(), T::one(), eps)
+    let (rot, _) = get_parts_raw(&r);
+    let tol = T::epsilon().sqrt();
+    is_rotation(rot)
+        && compare_floats(r[(3, 0)], T::zero(), tol)
+        && compare_floats(r[(3, 1)], T::zero(), tol)
+        && compare_floats(r[(3, 2)], T::zero(), tol)
+        && compare_floats(r[(3, 3)], T::one(), tol)
 }
 
 pub fn compare_dual_quaternions<T: Float>(
-- 
2.43.0


From cdb2a3ff613ffe78fd80867d497cf231875ea8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:39 +0000
Subject: [PATCH 20/27] fix: displaying a matrix writes its leading newline to
 the destination, not to stdout

---
 src/matrix2x2.rs | 2 +-
 src/matrix3x3.rs | 2 +-
 src/matrix4x4.rs | 2 +-
 src/matrix5x5.rs | 2 +-
 src/matrix6x6.rs | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/matrix2x2.rs b/src/matrix2x2.rs
index 656b8b1..cae8be4 100644
--- a/src/matrix2x2.rs
+++ b/src/matrix2x2.rs
@@ -527,7 +527,7 @@ macro_rules! m22_new {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M22<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(dest, "|{0:^3.2} {1:^3.2}|", self[(0, 0)], self[(0, 1)])?;
         writeln!(dest, "|{0:^3.2} {1:^3.2}|", self[(1, 0)], self[(1, 1)])
     }
diff --git a/src/matrix3x3.rs b/src/matrix3x3.rs
index f2cf923..40f4664 100644
--- a/src/matrix3x3.rs
+++ b/src/matrix3x3.rs
@@ -627,7 +627,7 @@ impl<T> IndexMut<(usize, usize)> for M33<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M33<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:>7.2}|",
diff --git a/src/matrix4x4.rs b/src/matrix4x4.rs
index ad01f6b..41f30cf 100644
--- a/src/matrix4x4.rs
+++ b/src/matrix4x4.rs
@@ -818,7 +818,7 @@ impl<T> IndexMut<usize> for M44<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M44<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:>7.2}|",
diff --git a/src/matrix5x5.rs b/src/matrix5x5.rs
index 539088a..d37fd31 100644
--- a/src/matrix5x5.rs
+++ b/src/matrix5x5.rs
@@ -1077,7 +1077,7 @@ impl<T> IndexMut<usize> for M55<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M55<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:^7.2} {4:>7.2}|",
diff --git a/src/matrix6x6.rs b/src/matrix6x6.rs
index cad9012..3ec9e73 100644
--- a/src/matrix6x6.rs
+++ b/src/matrix6x6.rs
@@ -1929,7 +1929,7 @@ macro_rules! m66_new {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M66<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:^7.2} {4:^7.2} {5:>7.2}|",
-- 
2.43.0


From 5f4b4454e546b0f0ed8ae50d74410b7874e5628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:54 +0000
Subject: [PATCH 21/27] fix: the quaternion sine does not panic when the
 squares of its imaginary part overflow

---
 src/quaternion.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 9e18d5f..c9ac145 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -519,7 +519,8 @@ impl<T: Float + Signed> Quaternion<T> {
         let one = T::one();
         let two = one + one;
         let l = self.argq();
-        ((*self * l).exp() - (*self * -l).exp())/ (l * two)
+        // NOTE: l is a unit (or vanishes by overflow), so its inverse is its conjugate
+        ((*self * l).exp() - (*self * -l).exp()) * l.conj() / two
     }
 
     /// cos function apply to the current Quaternion
-- 
2.43.0


From 13b5deb96938c419c34d6016b630bdc24f99a300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:03:43 +0000
Subject: [PATCH 22/27] fix: rotation_to_euler reads the roll relative to the
 yay, so that angles rebuild rotations next to the singularity

---
 src/transformations.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index e7c9423..e1397cc 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -167,24 +167,23 @@ pub fn rotation_to_euler<T: Float + FloatConst>(r: &M33<T>) -> (T, T, T) {
         (r[(0, 0)] * r[(0, 0)] + r[(1, 0)] * r[(1, 0)]).sqrt(),
     );
 
-    // NOTE: near the singularity yay and roll are the quotients of numbers of the size of the
-    // rounding errors, so it begins where those errors dominate
-    let tol = T::epsilon().sqrt();
-
     // singularity
-    if nearly_equal(pitch, -one * T::FRAC_PI_2(), tol) {
+    if nearly_equal(pitch, -one * T::FRAC_PI_2(), T::epsilon()) {
         let yay = T::atan2(-r[(1, 2)], -r[(0, 2)]);
         let roll = T::zero();
         (yay, pitch, roll)
     // singularity
-    } else if nearly_equal(pitch, T::FRAC_PI_2(), tol) {
+    } else if nearly_equal(pitch, T::FRAC_PI_2(), T::epsilon()) {
         let yay = T::atan2(r[(1, 2)], r[(0, 2)]);
         let roll = T::zero();
         (yay, pitch, roll)
     // normal case
     } else {
         let yay = T::atan2(r[(1, 0)], r[(0, 0)]);
-        let roll = T::atan2(r[(2, 1)], r[(2, 2)]);
+        // NOTE: the roll is read from the rotation with the yay taken out, because near the
+        // singularity only the two together are well determined
+        let (s, c) = yay.sin_cos();
+        let roll = T::atan2(s * r[(0, 2)] - c * r[(1, 2)], c * r[(1, 1)] - s * r[(0, 1)]);
         (yay, pitch, roll)
     }
 }
-- 
2.43.0


From fd1d409217e4e825c5f13b5e71094501f8c30489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:40:34 +0000
Subject: [PATCH 23/27] fix: matrix_log takes the axis of an obtuse rotation
 from its symmetric part and its sign from the skew part

---
 src/transformations.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index e1397cc..08fa53a 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -452,22 +452,21 @@ pub fn matrix_log<T: Float + core::iter::Sum + FloatConst>(r: &M33<T>) -> M33<T>
     let cos = (r.trace() - one) / two;
     let skew = (*r - r.transpose()) / two;
     let sin = skew_to_vec(&skew).norm2();
-    if cos < T::zero() && sin < T::epsilon().sqrt() {
-        // NOTE: near a half turn the skew part vanishes, so the axis comes from the column of the
-        // largest diagonal element
-        if r[(2, 2)] >= r[(1, 1)] && r[(2, 2)] >= r[(0, 0)] {
-            let omega = V3::new_from(r[(0, 2)], r[(1, 2)], one + r[(2, 2)])
-                * (one / T::sqrt(two * (one + r[(2, 2)])));
-            skew_from_vec(&(omega * T::PI()))
+    if cos < T::zero() {
+        // NOTE: towards a half turn the skew part vanishes, so the axis comes from the column of
+        // the largest diagonal element of the symmetric part, and its sign from the skew part
+        let sym = (*r + r.transpose()) / two - M33::identity() * cos;
+        let col = if r[(2, 2)] >= r[(1, 1)] && r[(2, 2)] >= r[(0, 0)] {
+            2
         } else if r[(1, 1)] >= r[(0, 0)] {
-            let omega = V3::new_from(r[(0, 1)], one + r[(1, 1)], r[(2, 1)])
-                * (one / T::sqrt(two * (one + r[(1, 1)])));
-            skew_from_vec(&(omega * T::PI()))
+            1
         } else {
-            let omega = V3::new_from(one + r[(0, 0)], r[(1, 0)], r[(2, 0)])
-                * (one / T::sqrt(two * (one + r[(0, 0)])));
-            skew_from_vec(&(omega * T::PI()))
-        }
+            0
+        };
+        let axis = V3::new_from(sym[(0, col)], sym[(1, col)], sym[(2, col)]);
+        let theta = T::atan2(sin, cos);
+        let theta = if axis * skew_to_vec(&skew) < T::zero() { -theta } else { theta };
+        skew_from_vec(&(axis * (theta / axis.norm2())))
     } else if nearly_zero(sin) {
         M33::zeros()
     } else {
-- 
2.43.0


From fa2ae39872bcef4e41b30713f503a7b4dc784e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:24 +0000
Subject: [PATCH 24/27] fix: matrix_exponential6 keeps the translation of small
 rotations

---
 src/transformations.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 08fa53a..346c952 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -591,9 +591,12 @@ pub fn matrix_exponential6<T: Float>(se3: &M44<T>) -> M44<T> {
         let theta = axis_angle(&omega_theta).1;
         let omega = skew_omega / theta;
         let mat_exp = matrix_exponential(&skew_omega);
-        let (s, c) = theta.sin_cos();
+        let s = theta.sin();
+        // NOTE: one minus the cosine, without cancellation for small angles
+        let half_sin = (theta / (one + one)).sin();
+        let versine = half_sin * half_sin * (one + one);
         let v_t =
-            (M33::identity() * theta + omega * (one - c) + omega * omega * (theta - s)) * v / theta;
+            (M33::identity() * theta + omega * versine + omega * omega * (theta - s)) * v / theta;
 
         m44_new!(mat_exp[(0, 0)], mat_exp[(0, 1)], mat_exp[(0, 2)], v_t[0];
                  mat_exp[(1, 0)], mat_exp[(1, 1)], mat_exp[(1, 2)], v_t[1];
-- 
2.43.0


From e60c57eed16272159ba8eb8191bf5e8705e7d04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:42:49 +0000
Subject: [PATCH 25/27] fix: normalize_q normalises short quaternions instead
 of replacing them

---
 src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index c9ac145..99d9be3 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -369,7 +369,7 @@ impl<T: Float> Quaternion<T> {
     /// normalize the Quaternion
     pub fn normalize_q(&self) -> Self {
         let a = self.dot(*self);
-        if a > T::epsilon() {
+        if a >= T::min_positive_value() {
             let mut result = *self / a.sqrt();
             result.normalized = true;
             result
-- 
2.43.0


From 682662c3fb780161b284b4f84786043547c1aa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:13 +0000
Subject: [PATCH 26/27] fix: axis_angle6 divided by zero for a rotation below
 the rounding unit without translation

---
 src/transformations.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 346c952..a7351f3 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -559,9 +559,10 @@ pub fn axis_angle6<T: Float>(exp: &V6<T>) -> (V6<T>, T) {
     // NOTE(elsuizo:2021-05-11): here we treat the vector like a slice(to obtain the first three
     // elements)
     let theta = norm2(&exp[0..3]);
-    if nearly_zero(theta) {
-        let theta = norm2(&exp[3..6]);
-        return (*exp / theta, theta);
+    let length = norm2(&exp[3..6]);
+    // a rotation this small counts as none, unless it is the larger part
+    if nearly_zero(theta) && length > theta {
+        return (*exp / length, length);
     }
     (*exp / theta, theta)
 }
-- 
2.43.0


From ea901790a407e8daa06d4691b020598001b956e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:41:02 +0000
Subject: [PATCH 27/27] fix: the screw axis of a translation shorter than the
 rounding unit was zero

---
 src/dual_quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 914a56d..26a14f5 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -200,7 +200,7 @@ impl<T: Float + Signed> DualQuaternion<T> {
         } else {
             let d = t.norm2();
             let mut l = V3::zero();
-            if !nearly_zero(d) {
+            if d != T::zero() {
                 l = t / d;
             }
             let inf = T::infinity();
-- 
2.43.0

