From ab578590ed6ce395fd81c9c4ffc4190a519e5498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:07 +0000
Subject: [PATCH 01/17] fix: XMVectorSetBinaryConstant tests bit 0 of every
 component and does not overflow without intrinsics

---
 src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e1edfda..b5cc253 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2808,10 +2808,10 @@ pub fn XMVectorSetBinaryConstant(C0: u32, C1: u32, C2: u32, C3: u32) -> XMVECTOR
     #[cfg(_XM_NO_INTRINSICS_)]
     unsafe {
         let mut vResult: XMVECTORU32 = crate::undefined();
-        vResult.u[0] = (0 - (C0 & 1)) & 0x3F800000;
-        vResult.u[1] = (0 - (C1 & 1)) & 0x3F800000;
-        vResult.u[2] = (0 - (C2 & 1)) & 0x3F800000;
-        vResult.u[3] = (0 - (C3 & 1)) & 0x3F800000;
+        vResult.u[0] = 0u32.wrapping_sub(C0 & 1) & 0x3F800000;
+        vResult.u[1] = 0u32.wrapping_sub(C1 & 1) & 0x3F800000;
+        vResult.u[2] = 0u32.wrapping_sub(C2 & 1) & 0x3F800000;
+        vResult.u[3] = 0u32.wrapping_sub(C3 & 1) & 0x3F800000;
         return vResult.v;
     }
 
@@ -2822,7 +2822,7 @@ pub fn XMVectorSetBinaryConstant(C0: u32, C1: u32, C2: u32, C3: u32) -> XMVECTOR
 
     #[cfg(_XM_SSE_INTRINSICS_)]
     unsafe {
-        const g_vMask1: XMVECTORU32 = XMVECTORU32 { u: [1, 2, 3, 4] };
+        const g_vMask1: XMVECTORU32 = XMVECTORU32 { u: [1, 1, 1, 1] };
         let mut vTemp = _mm_set_epi32(C3 as i32, C2 as i32, C1 as i32, C0 as i32);
         // Mask off the low bits
         vTemp = _mm_and_si128(vTemp, g_vMask1.m128i());
-- 
2.43.0


From 1c61b8f4f4aab0e1b6c1e2d861733d76cacb7beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:07 +0000
Subject: [PATCH 02/17] fix: XMConvertVectorIntToFloat without intrinsics reads
 signed integers and divides by 2^DivExponent

---
 src/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index cb5e66e..6e198cf 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -13,10 +13,10 @@ pub fn XMConvertVectorIntToFloat(VInt: FXMVECTOR, DivExponent: u32) -> XMVECTOR
 
     #[cfg(_XM_NO_INTRINSICS_)]
     unsafe {
-        let fScale = 1.0 / (1 >> DivExponent) as f32;
+        let fScale = 1.0 / (1u32 << DivExponent) as f32;
         let mut Result: XMVECTOR = crate::undefined();
         for ElementIndex in 0..4 {
-            let iTemp = VInt.vector4_u32[ElementIndex];
+            let iTemp = VInt.vector4_u32[ElementIndex] as i32;
             Result.vector4_f32[ElementIndex] = iTemp as f32 * fScale;
         }
         return Result;
-- 
2.43.0


From d45543c8a9f1b8f5327cf74c13724d3990ef5380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:23 +0000
Subject: [PATCH 03/17] fix: XMVectorInBoundsR without intrinsics records
 XM_CRMASK_CR6BOUNDS when all components are in bounds

---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index 704b728..bf0092e 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -2913,7 +2913,7 @@ pub fn XMVectorInBoundsR(pCR: &mut u32, V: FXMVECTOR, Bounds: FXMVECTOR) -> XMVE
         let mut CR = 0;
         if ubool(ux & uy & uz & uw) {
             // All elements are in bounds
-            CR = XM_CRMASK_CR6TRUE;
+            CR = XM_CRMASK_CR6BOUNDS;
         }
         *pCR = CR;
 
-- 
2.43.0


From bb7b01124a0c378850e51e52ac2aa488b48a644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:24 +0000
Subject: [PATCH 04/17] fix: XMVector2/3/4Greater(OrEqual)R without intrinsics
 report all-false when an operand is NaN

---
 src/vector.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index bf0092e..11fe1c0 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -7542,8 +7542,8 @@ pub fn XMVector2GreaterR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] <= V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] <= V2.vector4_f32[1]))
+        else if (!(V1.vector4_f32[0] > V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] > V2.vector4_f32[1]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -7615,8 +7615,8 @@ pub fn XMVector2GreaterOrEqualR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] < V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] < V2.vector4_f32[1]))
+        else if (!(V1.vector4_f32[0] >= V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] >= V2.vector4_f32[1]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -9359,9 +9359,9 @@ pub fn XMVector3GreaterR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] <= V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] <= V2.vector4_f32[1]) &&
-            (V1.vector4_f32[2] <= V2.vector4_f32[2]))
+        else if (!(V1.vector4_f32[0] > V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] > V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] > V2.vector4_f32[2]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -9435,9 +9435,9 @@ pub fn XMVector3GreaterOrEqualR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] < V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] < V2.vector4_f32[1]) &&
-            (V1.vector4_f32[2] < V2.vector4_f32[2]))
+        else if (!(V1.vector4_f32[0] >= V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] >= V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] >= V2.vector4_f32[2]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -11497,10 +11497,10 @@ pub fn XMVector4GreaterR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if (V1.vector4_f32[0] <= V2.vector4_f32[0] &&
-            V1.vector4_f32[1] <= V2.vector4_f32[1] &&
-            V1.vector4_f32[2] <= V2.vector4_f32[2] &&
-            V1.vector4_f32[3] <= V2.vector4_f32[3])
+        else if (!(V1.vector4_f32[0] > V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] > V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] > V2.vector4_f32[2]) &&
+            !(V1.vector4_f32[3] > V2.vector4_f32[3]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -11578,10 +11578,10 @@ pub fn XMVector4GreaterOrEqualR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] < V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] < V2.vector4_f32[1]) &&
-            (V1.vector4_f32[2] < V2.vector4_f32[2]) &&
-            (V1.vector4_f32[3] < V2.vector4_f32[3]))
+        else if (!(V1.vector4_f32[0] >= V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] >= V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] >= V2.vector4_f32[2]) &&
+            !(V1.vector4_f32[3] >= V2.vector4_f32[3]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
-- 
2.43.0


From d684e055c8c5a0ac381f9a3bac70dde331d28c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:51 +0000
Subject: [PATCH 05/17] fix: XMVectorRound without intrinsics rounds each
 component, not x four times

---
 src/vector.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 11fe1c0..4016684 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -3152,9 +3152,9 @@ pub fn XMVectorRound(V: FXMVECTOR) -> XMVECTOR {
         let Result = XMVECTORF32 {
             f: [
                 round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
+                round_to_nearest(V.vector4_f32[1]),
+                round_to_nearest(V.vector4_f32[2]),
+                round_to_nearest(V.vector4_f32[3]),
             ]
         };
         return Result.v;
-- 
2.43.0


From 28cc6b0a3d93a53931f66ee8bf6302cbc4e6b0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:19 +0000
Subject: [PATCH 06/17] fix: XMConvertHalfToFloat without F16C normalizes
 denormal halves until the implicit bit is set

---
 src/packed_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packed_vector.rs b/src/packed_vector.rs
index 3a62443..8712e1e 100644
--- a/src/packed_vector.rs
+++ b/src/packed_vector.rs
@@ -30,7 +30,7 @@ pub fn XMConvertHalfToFloat(Value: HALF) -> f32 {
             {
                 Exponent = Exponent.wrapping_sub(1);
                 Mantissa <<= 1;
-                if ((Mantissa & 0x0400) == 0) {
+                if ((Mantissa & 0x0400) != 0) {
                     break;
                 }
             }
-- 
2.43.0


From 764aad6bedb24c074f53fc325c1815cdf9ef127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:51 +0000
Subject: [PATCH 07/17] fix: no-intrinsics vector normalization returns QNaN
 for an infinite length, as documented

---
 src/vector.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index 4016684..7e22b97 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -8197,6 +8197,12 @@ pub fn XMVector2Normalize(
         let mut vResult: XMVECTOR = XMVector2Length(V);
         let mut fLength: f32 = vResult.vector4_f32[0];
 
+        // An infinite length has no direction
+        if (fLength.is_infinite())
+        {
+            return g_XMQNaN.v;
+        }
+
         // Prevent divide by zero
         if (fLength > 0.0)
         {
@@ -10180,6 +10186,12 @@ pub fn XMVector3Normalize(
         vResult = XMVector3Length(V);
         fLength = vResult.vector4_f32[0];
 
+        // An infinite length has no direction
+        if (fLength.is_infinite())
+        {
+            return g_XMQNaN.v;
+        }
+
         // Prevent divide by zero
         if (fLength > 0.0)
         {
@@ -12321,6 +12333,12 @@ pub fn XMVector4Normalize(
         vResult = XMVector4Length(V);
         fLength = vResult.vector4_f32[0];
 
+        // An infinite length has no direction
+        if (fLength.is_infinite())
+        {
+            return g_XMQNaN.v;
+        }
+
         // Prevent divide by zero
         if (fLength > 0.0)
         {
-- 
2.43.0


From b6ad74f4d64bbd5bdf51dee75b78d49f8f3c551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:10 +0000
Subject: [PATCH 08/17] fix: XMMatrixDecompose used the wrong canonical basis
 for degenerate scales

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 4c78e25..9ac9d0c 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -1370,8 +1370,8 @@ pub fn XMMatrixDecompose(
         // PERFORMANCE: We're using a static here insteads of const due to the references
         static pvCanonicalBasis: [&XMVECTOR; 3] = unsafe {[
             &g_XMIdentityR0.v,
+            &g_XMIdentityR1.v,
             &g_XMIdentityR2.v,
-            &g_XMIdentityR3.v,
         ]};
 
         // Get the translation
-- 
2.43.0


From 2ddcf13e58e08f1685edfc38ce2d6da4aa776661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:16 +0000
Subject: [PATCH 09/17] fix: XMPlaneNormalize used an SSE4.1 instruction in
 builds without SSE4.1

---
 src/misc.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/misc.rs b/src/misc.rs
index e3c685d..e29d2f4 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -2027,7 +2027,13 @@ pub fn XMPlaneNormalize(
 
     #[cfg(all(_XM_SSE_INTRINSICS_, not(_XM_SSE4_INTRINSICS_)))]
     unsafe {
-        let mut vLengthSq: XMVECTOR = _mm_dp_ps(P, P, 0x7f);
+        // Perform the dot product on x,y and z only
+        let mut vLengthSq: XMVECTOR = _mm_mul_ps(P, P);
+        let mut vTemp: XMVECTOR = XM_PERMUTE_PS!(vLengthSq, _MM_SHUFFLE(2, 1, 2, 1));
+        vLengthSq = _mm_add_ss(vLengthSq, vTemp);
+        vTemp = XM_PERMUTE_PS!(vTemp, _MM_SHUFFLE(1, 1, 1, 1));
+        vLengthSq = _mm_add_ss(vLengthSq, vTemp);
+        vLengthSq = XM_PERMUTE_PS!(vLengthSq, _MM_SHUFFLE(0, 0, 0, 0));
         // Prepare for the division
         let mut vResult: XMVECTOR = _mm_sqrt_ps(vLengthSq);
         // Failsafe on zero (Or epsilon) length planes
-- 
2.43.0


From c2aeec42b8be4831219b589cad1c36872085e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:07 +0000
Subject: [PATCH 10/17] fix: BoundingOrientedBox::CreateFromPoints measures
 every point along the box axes

Only the first point was rotated into the space of the box, so the box did
not enclose the points unless its axes were the coordinate axes.
---
 src/collision.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/collision.rs b/src/collision.rs
index a7f8cfc..8b28740 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -3279,6 +3279,7 @@ impl BoundingOrientedBox {
                 vMin = XMVector3TransformNormal(Point, InverseR);
                 vMax = vMin;
             } else {
+                let Point: XMVECTOR = XMVector3TransformNormal(Point, InverseR);
                 vMin = XMVectorMin(vMin, Point);
                 vMax = XMVectorMax(vMax, Point);
             }
-- 
2.43.0


From b615fdc499ec53561e359b6dfef2105cf4c0b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:07 +0000
Subject: [PATCH 11/17] fix: BoundingFrustum::IntersectsTriangle tests the
 triangle in the space of the frustum

The triangle-plane and edge-edge axes mixed the untransformed triangle with
the local-space corners of the frustum.
---
 src/collision.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 8b28740..b42c88b 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -4435,8 +4435,8 @@ impl BoundingFrustum {
        Corners[7] = XMVectorMultiply(vLeftBottom, vFar);
 
        // Test the plane of the triangle.
-       let Normal: XMVECTOR = XMVector3Cross(XMVectorSubtract(V1, V0), XMVectorSubtract(V2, V0));
-       let Dist: XMVECTOR = XMVector3Dot(Normal, V0);
+       let Normal: XMVECTOR = XMVector3Cross(XMVectorSubtract(TV1, TV0), XMVectorSubtract(TV2, TV0));
+       let Dist: XMVECTOR = XMVector3Dot(Normal, TV0);
 
        let mut MinDist: XMVECTOR;
        let mut MaxDist: XMVECTOR;
@@ -4458,9 +4458,9 @@ impl BoundingFrustum {
 
        // Check the edge/edge axes (3*6).
        let mut TriangleEdgeAxis: [XMVECTOR; 3] = unsafe { undefined() };
-       TriangleEdgeAxis[0] = XMVectorSubtract(V1, V0);
-       TriangleEdgeAxis[1] = XMVectorSubtract(V2, V1);
-       TriangleEdgeAxis[2] = XMVectorSubtract(V0, V2);
+       TriangleEdgeAxis[0] = XMVectorSubtract(TV1, TV0);
+       TriangleEdgeAxis[1] = XMVectorSubtract(TV2, TV1);
+       TriangleEdgeAxis[2] = XMVectorSubtract(TV0, TV2);
 
        let mut FrustumEdgeAxis: [XMVECTOR; 6] = unsafe { undefined() };
        FrustumEdgeAxis[0] = vRightTop;
@@ -4481,9 +4481,9 @@ impl BoundingFrustum {
                let mut MinA: XMVECTOR;
                let mut MaxA: XMVECTOR;
 
-               let Dist0: XMVECTOR = XMVector3Dot(V0, Axis);
-               let Dist1: XMVECTOR = XMVector3Dot(V1, Axis);
-               let Dist2: XMVECTOR = XMVector3Dot(V2, Axis);
+               let Dist0: XMVECTOR = XMVector3Dot(TV0, Axis);
+               let Dist1: XMVECTOR = XMVector3Dot(TV1, Axis);
+               let Dist2: XMVECTOR = XMVector3Dot(TV2, Axis);
 
                MinA = XMVectorMin(Dist0, Dist1);
                MinA = XMVectorMin(MinA, Dist2);
-- 
2.43.0


From f5ee1639f8ae798ca324872d99da46f987d7fd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:07 +0000
Subject: [PATCH 12/17] fix: triangle_tests::IntersectsTriangle zeroes small
 distances of A using A's distances

The mask was computed from B's distances to the plane of A.
---
 src/collision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision.rs b/src/collision.rs
index b42c88b..935d30f 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -5272,7 +5272,7 @@ pub mod triangle_tests {
 
         // Ensure robustness with co-planar triangles by zeroing small distances.
         let mut ADistIsZeroCR: u32 = unsafe { undefined() };
-        let ADistIsZero: XMVECTOR = XMVectorGreaterR(&mut ADistIsZeroCR, g_RayEpsilon.v(), XMVectorAbs(BDist));
+        let ADistIsZero: XMVECTOR = XMVectorGreaterR(&mut ADistIsZeroCR, g_RayEpsilon.v(), XMVectorAbs(ADist));
         ADist = XMVectorSelect(ADist, Zero, ADistIsZero);
 
         let mut ADistIsLessCR: u32 = unsafe { undefined() };
-- 
2.43.0


From 868c5b698c8416251ca2e615e7d21fe559e31ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:07 +0000
Subject: [PATCH 13/17] fix: triangle_tests::IntersectsTriangle uses outward
 edge axes for co-planar triangles

N x edge points into the triangle, so co-planar overlapping triangles were
reported as disjoint and separated ones as intersecting.
---
 src/collision.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 935d30f..dff749b 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -5294,7 +5294,7 @@ pub mod triangle_tests {
             let mut MinDist: XMVECTOR;
 
             // Compute an axis perpindicular to the edge (points out).
-            Axis = XMVector3Cross(N1, XMVectorSubtract(A1, A0));
+            Axis = XMVector3Cross(XMVectorSubtract(A1, A0), N1);
             Dist = XMVector3Dot(Axis, A0);
 
             // Test points of B against the axis.
@@ -5306,7 +5306,7 @@ pub mod triangle_tests {
             }
 
             // Edge (A1, A2)
-            Axis = XMVector3Cross(N1, XMVectorSubtract(A2, A1));
+            Axis = XMVector3Cross(XMVectorSubtract(A2, A1), N1);
             Dist = XMVector3Dot(Axis, A1);
 
             MinDist = XMVector3Dot(B0, Axis);
@@ -5317,7 +5317,7 @@ pub mod triangle_tests {
             }
 
             // Edge (A2, A0)
-            Axis = XMVector3Cross(N1, XMVectorSubtract(A0, A2));
+            Axis = XMVector3Cross(XMVectorSubtract(A0, A2), N1);
             Dist = XMVector3Dot(Axis, A2);
 
             MinDist = XMVector3Dot(B0, Axis);
@@ -5328,7 +5328,7 @@ pub mod triangle_tests {
             }
 
             // Edge (B0, B1)
-            Axis = XMVector3Cross(N2, XMVectorSubtract(B1, B0));
+            Axis = XMVector3Cross(XMVectorSubtract(B1, B0), N2);
             Dist = XMVector3Dot(Axis, B0);
 
             MinDist = XMVector3Dot(A0, Axis);
@@ -5339,7 +5339,7 @@ pub mod triangle_tests {
             }
 
             // Edge (B1, B2)
-            Axis = XMVector3Cross(N2, XMVectorSubtract(B2, B1));
+            Axis = XMVector3Cross(XMVectorSubtract(B2, B1), N2);
             Dist = XMVector3Dot(Axis, B1);
 
             MinDist = XMVector3Dot(A0, Axis);
@@ -5350,7 +5350,7 @@ pub mod triangle_tests {
             }
 
             // Edge (B2,B0)
-            Axis = XMVector3Cross(N2, XMVectorSubtract(B0, B2));
+            Axis = XMVector3Cross(XMVectorSubtract(B0, B2), N2);
             Dist = XMVector3Dot(Axis, B2);
 
             MinDist = XMVector3Dot(A0, Axis);
-- 
2.43.0


From d4ea8cbe3a8edff1c51c902da5a9233770e61232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:30 +0000
Subject: [PATCH 14/17] fix: BoundingOrientedBox::IntersectsOrientedBox does
 not mistake rounding error for a separating axis

For boxes with (nearly) parallel edges the cross-product axes consist of
rounding error only, and deeply overlapping boxes could be reported as
disjoint.
---
 src/collision.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index dff749b..a0a16b2 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -2728,15 +2728,19 @@ impl BoundingOrientedBox {
         let RX1: XMVECTOR = unsafe { R.r[1] };
         let RX2: XMVECTOR = unsafe { R.r[2] };
 
+        // When two edges are (nearly) parallel their cross product is nothing but rounding
+        // error; widen the radii a little so that it is not taken for a separating axis.
+        let Epsilon: XMVECTOR = XMVectorSet(1.0e-6, 1.0e-6, 1.0e-6, 0.0);
+
         // Absolute value of rows.
-        let AR0X: XMVECTOR = XMVectorAbs(R0X);
-        let AR1X: XMVECTOR = XMVectorAbs(R1X);
-        let AR2X: XMVECTOR = XMVectorAbs(R2X);
+        let AR0X: XMVECTOR = XMVectorAdd(XMVectorAbs(R0X), Epsilon);
+        let AR1X: XMVECTOR = XMVectorAdd(XMVectorAbs(R1X), Epsilon);
+        let AR2X: XMVECTOR = XMVectorAdd(XMVectorAbs(R2X), Epsilon);
 
         // Absolute value of columns.
-        let ARX0: XMVECTOR = XMVectorAbs(RX0);
-        let ARX1: XMVECTOR = XMVectorAbs(RX1);
-        let ARX2: XMVECTOR = XMVectorAbs(RX2);
+        let ARX0: XMVECTOR = XMVectorAdd(XMVectorAbs(RX0), Epsilon);
+        let ARX1: XMVECTOR = XMVectorAdd(XMVectorAbs(RX1), Epsilon);
+        let ARX2: XMVECTOR = XMVectorAdd(XMVectorAbs(RX2), Epsilon);
 
         // Test each of the 15 possible seperating axii.
         //XMVECTOR d, d_A, d_B;
-- 
2.43.0


From b1a48af1ab5c1de2b2bc8872e213a16484016872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:11 +0000
Subject: [PATCH 15/17] fix: BoundingOrientedBox::CreateFromPoints of (nearly)
 coincident points no longer yields NaN

---
 src/collision.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index a0a16b2..e84298f 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -248,7 +248,9 @@ mod internal {
             return false; // only one real root
         }
 
-        if ((h == 0.0) && (q == 0.0)) // all the same root
+        d = sqrtf(q * q / 4.0 - h);
+
+        if (d == 0.0) // all the same root (possibly because the differences underflow)
         {
             *t = -e / 3.0;
             *u = -e / 3.0;
@@ -257,7 +259,6 @@ mod internal {
             return true;
         }
 
-        d = sqrtf(q * q / 4.0 - h);
         if (d < 0.0) {
             rc = -powf(-d, 1.0 / 3.0);
         }
-- 
2.43.0


From 246ae72687235779514b3d2ab69d39db8c629c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:23 +0000
Subject: [PATCH 16/17] fix: XMMatrix += and -= update every row

---
 src/matrix.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 9ac9d0c..9d6c763 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -3785,9 +3785,9 @@ impl std::ops::AddAssign for XMMatrix {
     fn add_assign(&mut self, M: XMMatrix) {
         unsafe {
             self.r[0] = XMVectorAdd(self.r[0], M.r[0]);
-            self.r[0] = XMVectorAdd(self.r[1], M.r[1]);
-            self.r[0] = XMVectorAdd(self.r[2], M.r[2]);
-            self.r[0] = XMVectorAdd(self.r[3], M.r[3]);
+            self.r[1] = XMVectorAdd(self.r[1], M.r[1]);
+            self.r[2] = XMVectorAdd(self.r[2], M.r[2]);
+            self.r[3] = XMVectorAdd(self.r[3], M.r[3]);
         }
     }
 }
@@ -3812,9 +3812,9 @@ impl std::ops::SubAssign for XMMatrix {
     fn sub_assign(&mut self, M: XMMatrix) {
         unsafe {
             self.r[0] = XMVectorSubtract(self.r[0], M.r[0]);
-            self.r[0] = XMVectorSubtract(self.r[1], M.r[1]);
-            self.r[0] = XMVectorSubtract(self.r[2], M.r[2]);
-            self.r[0] = XMVectorSubtract(self.r[3], M.r[3]);
+            self.r[1] = XMVectorSubtract(self.r[1], M.r[1]);
+            self.r[2] = XMVectorSubtract(self.r[2], M.r[2]);
+            self.r[3] = XMVectorSubtract(self.r[3], M.r[3]);
         }
     }
 }
-- 
2.43.0


From 81d33a10bb3d0038b545dfb6efacd4fc8e994f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:43 +0000
Subject: [PATCH 17/17] fix: BoundingOrientedBox::CreateFromPoints overflowed
 or lost its axes for large and small point clouds

The cubic of the covariance matrix overflows for clouds of some thousand units
and its absolute tolerances swallow small ones; scale the matrix first.
---
 src/collision.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/collision.rs b/src/collision.rs
index e84298f..fab7b5d 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -465,6 +465,22 @@ mod internal {
         pV3: &mut XMVECTOR,
 
     ) -> bool {
+        // The eigenvectors do not depend on the scale of the matrix: bring very large or small
+        // entries to a common scale and drop negligible ones, so that the products and quotients
+        // below neither overflow nor underflow.
+        let Largest: f32 = [Cyy, Czz, Cxy, Cxz, Cyz].iter().fold(fabsf(Cxx), |m, c| m.max(fabsf(*c)));
+        let Scale = |c: f32| -> f32 {
+            if (fabsf(c) <= Largest * 1e-17) {
+                0.0
+            } else if (Largest < 1e-3 || Largest > 1e3) {
+                c / Largest * 8.0
+            } else {
+                c
+            }
+        };
+        let (Cxx, Cyy, Czz): (f32, f32, f32) = (Scale(Cxx), Scale(Cyy), Scale(Czz));
+        let (Cxy, Cxz, Cyz): (f32, f32, f32) = (Scale(Cxy), Scale(Cxz), Scale(Cyz));
+
         // Calculate the eigenvalues by solving a cubic equation.
         let e: f32 = -(Cxx + Cyy + Czz);
         let f: f32 = Cxx * Cyy + Cyy * Czz + Czz * Cxx - Cxy * Cxy - Cxz * Cxz - Cyz * Cyz;
-- 
2.43.0

