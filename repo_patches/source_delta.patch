From 5305b625d7144f1e9b4f148dc668363ab12ff831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 1/7] fix: forward, up and right of a camera far from the
 origin

The direction was computed as the difference of two points near the camera
center, losing all precision (or becoming NaN) for distant cameras.
---
 src/extrinsics.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/extrinsics.rs b/src/extrinsics.rs
index d03cd9b..aa06c78 100644
--- a/src/extrinsics.rs
+++ b/src/extrinsics.rs
@@ -180,9 +180,10 @@ impl<R: RealField> ExtrinsicParameters<R> {
     ///
     /// `pt_cam` is specified in camera coords.
     fn lookdir(&self, pt_cam: &Point3<R>) -> Unit<Vector3<R>> {
-        let cc = self.camcenter();
-        let pt = self.cache.pose_inv.transform_point(pt_cam) - cc;
-        nalgebra::Unit::new_normalize(pt)
+        // Rotate only: adding and subtracting the camera center would lose
+        // precision when the camera is far from the origin.
+        let dir = self.cache.pose_inv.transform_vector(&pt_cam.coords);
+        nalgebra::Unit::new_normalize(dir)
     }
 
     /// Convert points in camera coordinates to world coordinates.
-- 
2.43.0


From eb02a4697d040773f5b41e79088279d5678ed303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 2/7] fix: use pi at the precision of the scalar type in
 from_view

The f64 constant limits scalar types wider than f64 to 1e-16.
---
 src/extrinsics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extrinsics.rs b/src/extrinsics.rs
index aa06c78..0818c9d 100644
--- a/src/extrinsics.rs
+++ b/src/extrinsics.rs
@@ -112,7 +112,7 @@ impl<R: RealField> ExtrinsicParameters<R> {
         let dir = lookat - camcenter;
         let dir_unit = nalgebra::Unit::new_normalize(dir);
         let q = UnitQuaternion::look_at_lh(dir_unit.as_ref(), up.as_ref());
-        let pi: R = convert(std::f64::consts::PI);
+        let pi = R::pi();
 
         let q2 = UnitQuaternion::from_axis_angle(&dir_unit, pi);
         let q3 = q * q2;
-- 
2.43.0


From d09af0090b82af7b11f84f6205d9a85263310edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 3/7] fix: Jacobian of cameras level with the world origin

The camera matrix was divided by its element (2,3), which is zero (or tiny)
when the world origin is in the camera's focal plane, e.g. when the camera
is at the origin.  The Jacobian was then NaN.
---
 src/linearize.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/linearize.rs b/src/linearize.rs
index 701c1f9..c151d9a 100644
--- a/src/linearize.rs
+++ b/src/linearize.rs
@@ -18,11 +18,8 @@ impl<R: RealField> JacobianPerspectiveCache<R> {
             p33 * cam.extrinsics().matrix()
         };
 
-        // flip sign if focal length < 0
-        let m = if m[(0, 0)] < nalgebra::zero() { -m } else { m };
-
-        let m = m.clone() / m[(2, 3)].clone(); // normalize
-
+        // The Jacobian does not depend on the scale or sign of `m`, so there is
+        // no need to normalize. (Element (2,3) is zero for some valid cameras.)
         Self { m }
     }
 
-- 
2.43.0


From 658c5586b63cc1877a642c920086ca8bda0d2a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 4/7] fix: export the matrix of cameras level with the world
 origin

The camera matrix was divided by its element (2,3), which is zero when the
world origin is in the camera's focal plane, e.g. when the camera is at the
origin.  All elements were then infinite or NaN.
---
 src/camera.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/camera.rs b/src/camera.rs
index aab0b6b..a3bc532 100644
--- a/src/camera.rs
+++ b/src/camera.rs
@@ -194,7 +194,14 @@ impl<R: RealField> Camera<R, IntrinsicParametersPerspective<R>> {
             m
         };
 
-        m.clone() / m[(2, 3)].clone() // normalize
+        // Normalize if possible. Element (2,3) is zero (or too small) if the
+        // world origin is in the focal plane of the camera.
+        let normalized = m.clone() / m[(2, 3)].clone();
+        if normalized.iter().all(|x| x.is_finite()) {
+            normalized
+        } else {
+            m
+        }
     }
 }
 
-- 
2.43.0


From 0b8a1a07d48af27235ef70a8a7142c18efb544b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 5/7] fix: report singular matrices as invalid in
 from_perspective_matrix

A camera with NaN or infinite parameters was returned as success.
---
 src/camera.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/camera.rs b/src/camera.rs
index a3bc532..9cb20ef 100644
--- a/src/camera.rs
+++ b/src/camera.rs
@@ -175,6 +175,17 @@ impl<R: RealField> Camera<R, IntrinsicParametersPerspective<R>> {
         };
 
         let camcenter = pmat2cam_center(pmat);
+
+        // A singular matrix does not describe a perspective camera.
+        if ![&params.fx, &params.fy, &params.skew, &params.cx, &params.cy]
+            .into_iter()
+            .chain(rquat.coords.iter())
+            .chain(camcenter.coords.iter())
+            .all(|x| x.is_finite())
+        {
+            return Err(Error::InvalidInput);
+        }
+
         let extrinsics = ExtrinsicParameters::from_rotation_and_camcenter(rquat, camcenter);
 
         Ok(Self::new(params.into(), extrinsics))
-- 
2.43.0


From 5357c8ab9ecac7f22d5964b07f9310ce3433dbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 6/7] fix: accuracy of the intersection of rays

The pseudo-inverse was computed from an SVD accurate to about 1e-7 only, so
the intersection of well-conditioned f64 rays could be wrong by 1e-7 of its
distance from the origin and more.
---
 src/ray_intersection.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ray_intersection.rs b/src/ray_intersection.rs
index 327a774..2931bdb 100644
--- a/src/ray_intersection.rs
+++ b/src/ray_intersection.rs
@@ -174,12 +174,16 @@ where
 }
 
 fn my_pinv<R: RealField>(m: &SMatrix<R, 3, 3>) -> Result<SMatrix<R, 3, 3>, Error> {
-    Ok(
-        na::linalg::SVD::try_new(m.clone(), true, true, na::convert(1e-7), 100)
-            .ok_or(Error::SvdFailed)?
-            .pseudo_inverse(na::convert(1.0e-7))
-            .unwrap(),
-    )
+    let svd = na::linalg::SVD::try_new(m.clone(), true, true, na::convert(1e-7), 100)
+        .ok_or(Error::SvdFailed)?;
+    if svd.rank(na::convert(1.0e-7)) == 3 {
+        // The SVD is accurate to about 1e-7 only. With full rank, the pseudo
+        // inverse is the inverse, which we can compute to full precision.
+        if let Some(inv) = m.clone().try_inverse() {
+            return Ok(inv);
+        }
+    }
+    Ok(svd.pseudo_inverse(na::convert(1.0e-7)).unwrap())
     // The unwrap() above is safe because, as of nalgebra 0.19, this could only error if the SVD has not been computed.
     // But this is not possible here, so the unwrap() should never result in a panic.
 }
-- 
2.43.0


From 676c9190be37e2404bdc8e1b900a2225f641c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 7/7] fix: intersection of parallel f32 rays

For parallel or almost parallel f32 rays the normal matrix is singular up to
rounding, so that its pseudo-inverse has very large elements which cancel in
the product with the right hand side.  In f32 nothing was left of the result,
which could be as far from the rays as those are from the origin.  Compute
the product in f64, like the sums it is made of.
---
 src/ray_intersection.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/ray_intersection.rs b/src/ray_intersection.rs
index 2931bdb..7991784 100644
--- a/src/ray_intersection.rs
+++ b/src/ray_intersection.rs
@@ -26,15 +26,6 @@ macro_rules! refsum_as_f64 {
     }};
 }
 
-/// convert from specialized type (e.g. f64) into generic type $R
-macro_rules! despecialize {
-    ($a:expr, $R:ty, $rows:expr, $cols:expr) => {{
-        SMatrix::<$R, $rows, $cols>::from_iterator(
-            $a.as_slice().into_iter().map(|x| na::convert(*x)),
-        )
-    }};
-}
-
 /// A single point. (This is a `Points` instance defined to have only one point).
 pub type SinglePoint<Coords, R> = Points<Coords, R, U1, Owned<R, U1, U3>>;
 
@@ -140,7 +131,6 @@ where
     let xt2 = py.iter().zip(xy.iter()).map(|(a, b)| a.clone() * b.clone());
     let xt3 = pz.iter().zip(xz.iter()).map(|(a, b)| a.clone() * b.clone());
     let CX: f64 = refsum_as_f64!(izip!(xt1, xt2, xt3).map(|(t1, t2, t3)| t1 + t2 + t3), R);
-    let CX: R = na::convert(CX);
 
     let yt1 = px.iter().zip(xy.iter()).map(|(a, b)| a.clone() * b.clone());
     let yt2 = py
@@ -149,7 +139,6 @@ where
         .map(|(a, b)| a.clone() * b.clone());
     let yt3 = pz.iter().zip(yz.iter()).map(|(a, b)| a.clone() * b.clone());
     let CY: f64 = refsum_as_f64!(izip!(yt1, yt2, yt3).map(|(t1, t2, t3)| t1 + t2 + t3), R);
-    let CY: R = na::convert(CY);
 
     let zt1 = px.iter().zip(xz.iter()).map(|(a, b)| a.clone() * b.clone());
     let zt2 = py.iter().zip(yz.iter()).map(|(a, b)| a.clone() * b.clone());
@@ -158,17 +147,16 @@ where
         .zip(zzm1.iter())
         .map(|(a, b)| a.clone() * b.clone());
     let CZ: f64 = refsum_as_f64!(izip!(zt1, zt2, zt3).map(|(t1, t2, t3)| t1 + t2 + t3), R);
-    let CZ: R = na::convert(CZ);
 
     let C = Vector3::new(CX, CY, CZ);
 
-    let s_f64_pinv = my_pinv(&S)?;
-    let s_pinv = despecialize!(s_f64_pinv, R, 3, 3);
-    let r: Vector3<R> = s_pinv * C;
+    // Only convert to type R after this product. If the rays are almost parallel,
+    // elements of the pseudo-inverse are very large and mostly cancel.
+    let r: Vector3<f64> = my_pinv(&S)? * C;
 
     let mut result = crate::Points::new(nalgebra::OMatrix::<R, U1, U3>::zeros_generic(u1, u3));
     for j in 0..3 {
-        result.data[(0, j)] = r[j].clone();
+        result.data[(0, j)] = na::convert(r[j]);
     }
     Ok(result)
 }
-- 
2.43.0

