From e717cf39d40757f4383cb40f9d323bb0af4ceeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:35 +0000
Subject: [PATCH 01/61] fix: invert() of the transforms did not return the
 inverse map

The translation was multiplied by the scale instead of divided by it, and the
gear transforms ignored that the phase rotation does not commute with the
orientation.
---
 src/gggears/gggears_base_classes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index a7a92d5..610cf5e 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -96,7 +96,7 @@ class TransformData:
         """Invert the transformation."""
         inv_orient = self.orientation.transpose()
         return TransformData(
-            center=-inv_orient @ self.center * self.scale,
+            center=-inv_orient @ self.center / self.scale,
             orientation=inv_orient,
             scale=1 / self.scale,
         )
@@ -146,7 +146,7 @@ class Transform(TransformData):
         """Invert the transformation."""
         inv_orient = self.orientation.transpose()
         return Transform(
-            center=-inv_orient @ self.center * self.scale,
+            center=-inv_orient @ self.center / self.scale,
             orientation=inv_orient,
             scale=1 / self.scale,
         )
@@ -202,8 +202,8 @@ class GearTransformData(TransformData):
         inv_orient = self.orientation.transpose()
         inv_angle = scp_Rotation.from_euler("z", -self.angle).as_matrix()
         return GearTransformData(
-            center=-inv_orient @ inv_angle @ self.center * self.scale,
-            orientation=inv_orient,
+            center=-inv_angle @ inv_orient @ self.center / self.scale,
+            orientation=inv_angle @ inv_orient @ inv_angle.transpose(),
             scale=1 / self.scale,
             angle=-self.angle,
         )
@@ -248,7 +248,7 @@ class GearTransform(GearTransformData):
         inv_angle = scp_Rotation.from_euler("z", self.angle).as_matrix()
         return GearTransform(
             center=-self.center @ inv_orient @ inv_angle / self.scale,
-            orientation=inv_orient.transpose(),
+            orientation=inv_angle.transpose() @ inv_orient.transpose() @ inv_angle,
             scale=1 / self.scale,
             angle=-self.angle,
         )
-- 
2.43.0


From 363f764021e16ad0be64feb52ad1ec7a51fd47b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:35 +0000
Subject: [PATCH 02/61] fix: composing gear transforms ignored the first one's
 angle

t1 * t2 must act like t1(t2(p)); the phase rotation of t1 acts on the
orientation (and, for GearTransformData, the center) of t2.
---
 src/gggears/gggears_base_classes.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index 610cf5e..f9cad44 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -186,9 +186,14 @@ class GearTransformData(TransformData):
 
     def __mul__(self, other):
         if isinstance(other, GearTransformData):
+            rot_z = scp_Rotation.from_euler("z", self.angle).as_matrix()
             return GearTransformData(
-                center=self.center + self.orientation @ other.center * self.scale,
-                orientation=self.orientation @ other.orientation,
+                center=self.center
+                + self.orientation @ rot_z @ other.center * self.scale,
+                orientation=self.orientation
+                @ rot_z
+                @ other.orientation
+                @ rot_z.transpose(),
                 scale=self.scale * other.scale,
                 angle=self.angle + other.angle,
             )
@@ -227,13 +232,14 @@ class GearTransform(GearTransformData):
 
     def __mul__(self, other):
         if isinstance(other, GearTransformData):
+            rot_z = scp_Rotation.from_euler("z", self.angle).as_matrix()
             return GearTransform(
                 center=self.center
-                + self.orientation
-                @ scp_Rotation.from_euler("z", self.angle).as_matrix()
-                @ other.center
-                * self.scale,
-                orientation=self.orientation @ other.orientation,
+                + self.orientation @ rot_z @ other.center * self.scale,
+                orientation=self.orientation
+                @ rot_z
+                @ other.orientation
+                @ rot_z.transpose(),
                 scale=self.scale * other.scale,
                 angle=self.angle + other.angle,
             )
-- 
2.43.0


From adb568fa6cdc1ab189115f94a2eec2082384ce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:51 +0000
Subject: [PATCH 03/61] fix: reversing a curve did not reverse its
 length-parameter lookup

---
 src/gggears/curve.py | 55 ++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index be34d3c..7af5575 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -137,40 +137,44 @@ class Curve:
 
     def t2s(self, t):
         """Convert natural parameter t to length-proportional parameter s."""
-        retval = np.interp(t, self.t2s_lookup["t"], self.t2s_lookup["s"])
+        t_nodes, s_nodes = self.t2s_lookup["t"], self.t2s_lookup["s"]
+        if t_nodes[0] > t_nodes[-1]:
+            # reversed curve: np.interp needs increasing sample points
+            t_nodes, s_nodes = np.flip(t_nodes), np.flip(s_nodes)
+        retval = np.interp(t, t_nodes, s_nodes)
         if np.ndim(t) > 0:
-            if any(t < self.t_0):
-                retval[t < self.t_0] = interpolate(
-                    t[t < self.t_0],
-                    self.t2s_lookup["t"][0],
-                    self.t2s_lookup["t"][1],
-                    self.t2s_lookup["s"][0],
-                    self.t2s_lookup["s"][1],
+            if any(t < t_nodes[0]):
+                retval[t < t_nodes[0]] = interpolate(
+                    t[t < t_nodes[0]],
+                    t_nodes[0],
+                    t_nodes[1],
+                    s_nodes[0],
+                    s_nodes[1],
                 )
-            if any(t > self.t_1):
-                retval[t > self.t_1] = interpolate(
-                    t[t > self.t_1],
-                    self.t2s_lookup["t"][-1],
-                    self.t2s_lookup["t"][-2],
-                    self.t2s_lookup["s"][-1],
-                    self.t2s_lookup["s"][-2],
+            if any(t > t_nodes[-1]):
+                retval[t > t_nodes[-1]] = interpolate(
+                    t[t > t_nodes[-1]],
+                    t_nodes[-1],
+                    t_nodes[-2],
+                    s_nodes[-1],
+                    s_nodes[-2],
                 )
         else:
-            if t < self.t_0:
+            if t < t_nodes[0]:
                 retval = interpolate(
                     t,
-                    self.t2s_lookup["t"][0],
-                    self.t2s_lookup["t"][1],
-                    self.t2s_lookup["s"][0],
-                    self.t2s_lookup["s"][1],
+                    t_nodes[0],
+                    t_nodes[1],
+                    s_nodes[0],
+                    s_nodes[1],
                 )
-            elif t > self.t_1:
+            elif t > t_nodes[-1]:
                 retval = interpolate(
                     t,
-                    self.t2s_lookup["t"][-1],
-                    self.t2s_lookup["t"][-2],
-                    self.t2s_lookup["s"][-1],
-                    self.t2s_lookup["s"][-2],
+                    t_nodes[-1],
+                    t_nodes[-2],
+                    s_nodes[-1],
+                    s_nodes[-2],
                 )
         return retval
 
@@ -201,6 +205,7 @@ class Curve:
         """Reverse the curve in place."""
         self.t_0, self.t_1 = self.t_1, self.t_0
         self.t2s_lookup["t"] = np.flip(self.t2s_lookup["t"])
+        self.t2s_lookup["s"] = 1 - np.flip(self.t2s_lookup["s"])
         return self
 
     def derivative(self, t, direction=0, n=1, delta=DELTA):
-- 
2.43.0


From faca905520414da116a4f20b6b6e5b4910c7c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:51 +0000
Subject: [PATCH 04/61] fix: dividing a curve by a scalar used the natural
 parameter range of the operand

---
 src/gggears/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 7af5575..f9eba7f 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -330,8 +330,8 @@ class Curve:
             return Curve(
                 lambda t: self(t) / other,
                 active=self.active,
-                t0=self.t_0,
-                t1=self.t_1,
+                t0=0,
+                t1=1,
                 params={},
                 enable_vectorize=self.enable_vectorize,
             )
-- 
2.43.0


From 8823eddb201dc52936d5ccdb342249280acf2715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:51 +0000
Subject: [PATCH 05/61] fix: second and higher numeric derivatives of a curve
 raised TypeError

---
 src/gggears/curve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index f9eba7f..e5f5526 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -239,7 +239,10 @@ class Curve:
             return numeric_diff(self, t, direction, delta)
         else:
             return numeric_diff(
-                self.derivative(t, direction, n - 1, delta), t, direction, delta
+                lambda t: self.derivative(t, direction, n - 1, delta),
+                t,
+                direction,
+                delta,
             )
 
     def cut(self, t):
-- 
2.43.0


From 6a84fce3c5bad41fd9c27efea758f0612995d462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:12 +0000
Subject: [PATCH 06/61] fix: reversing a curve chain returned None instead of
 the chain

---
 src/gggears/curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index e5f5526..bf1f55d 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -551,6 +551,7 @@ class CurveChain(Curve):
         self.curves.reverse()
         for curve in self.curves:
             curve.reverse()
+        return self
 
     def set_start_and_end_on(self, s0, s1, preserve_inactive_curves=False):
         """Set the start and end of the chain in length-proportional parameter s.
-- 
2.43.0


From 17953ede46beb297c5cd03d24903838288c15551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:12 +0000
Subject: [PATCH 07/61] fix: deleting an item of a curve chain left an empty
 list in it

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index bf1f55d..5c917ae 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -512,7 +512,7 @@ class CurveChain(Curve):
         self.curves[index] = value
 
     def __delitem__(self, index):
-        self.curves[index] = []
+        del self.curves[index]
 
     def __iter__(self):
         return iter(self.curves)
-- 
2.43.0


From 5223dd58de660920f6f821452e3ac27dc079d3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:12 +0000
Subject: [PATCH 08/61] fix: trimming both ends of a curve chain located the
 end on the already trimmed chain

---
 src/gggears/curve.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 5c917ae..1d0aadb 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -567,23 +567,18 @@ class CurveChain(Curve):
             the chain, with active=False status.
             If False, curves outside of the range get removed.
         """
-        idx, s2 = self.get_s_index(s0)
-        if preserve_inactive_curves:
-            for curve in self.curves[:idx]:
-                curve.active = False
-            self.curves[idx].set_start_on(s2)
+        idx0, s2_0 = self.get_s_index(s0)
+        idx1, s2_1 = self.get_s_index(s1)
+        if idx0 == idx1:
+            self.curves[idx0].set_start_and_end_on(s2_0, s2_1)
         else:
-            self.curves = self.curves[idx:]
-            self.curves[0].set_start_on(s2)
-
-        idx, s2 = self.get_s_index(s1)
+            self.curves[idx0].set_start_on(s2_0)
+            self.curves[idx1].set_end_on(s2_1)
         if preserve_inactive_curves:
-            for curve in self.curves[idx + 1 :]:
+            for curve in self.curves[:idx0] + self.curves[idx1 + 1 :]:
                 curve.active = False
-            self.curves[idx].set_end_on(s2)
         else:
-            self.curves = self.curves[: idx + 1]
-            self.curves[-1].set_end_on(s2)
+            self.curves = self.curves[idx0 : idx1 + 1]
         self.update_lengths()
 
     def set_start_on(self, s0, preserve_inactive_curves=False):
-- 
2.43.0


From 3e6cf87c89d743adaff746e1e228b2ab32383996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:12 +0000
Subject: [PATCH 09/61] fix: the length of an arc ignored trimming and was
 negative for negative angles

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 1d0aadb..78b4f5b 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1140,7 +1140,7 @@ class ArcCurve(Curve):
         return points
 
     def update_lengths(self):
-        self.length = self.radius * self.angle
+        self.length = np.abs(self.radius * self.angle * (self.t_1 - self.t_0))
         self.t2s_lookup["s"] = np.array([0, 1])
         self.t2s_lookup["t"] = np.array([self.t_0, self.t_1])
 
-- 
2.43.0


From b668c835b7a1a3a9a5e24437236370e89f7bd598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:12 +0000
Subject: [PATCH 10/61] fix: transforming a trimmed or reversed line or arc
 returned the original extent

---
 src/gggears/curve.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 78b4f5b..001d453 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1102,8 +1102,8 @@ class LineCurve(Curve):
         self.t2s_lookup["t"] = np.array([self.t_0, self.t_1])
 
     def transform(self, transform: callable) -> "LineCurve":
-        p0 = transform(self.p0)
-        p1 = transform(self.p1)
+        p0 = transform(self(0))
+        p1 = transform(self(1))
         return LineCurve(p0, p1, active=self.active)
 
 
@@ -1315,7 +1315,11 @@ class ArcCurve(Curve):
         center2 = transform(self.center + self.axis)
         axis2 = normalize_vector(center2 - center0)
         return ArcCurve.from_point_center_angle(
-            p0, center0, self.angle, axis2, active=self.active
+            p0,
+            center0,
+            self.angle * (self.t_1 - self.t_0),
+            axis2,
+            active=self.active,
         )
 
 
-- 
2.43.0


From 346f089d10bc8e8e5d8ba4fb185911cea4fbbc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:41 +0000
Subject: [PATCH 11/61] fix: evaluating an arc at an array of parameters raised
 with current scipy

---
 src/gggears/curve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 001d453..bd12635 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1135,9 +1135,9 @@ class ArcCurve(Curve):
         ).as_matrix()
 
     def arcfunc(self, t):
-        rot_arc = scp_Rotation.from_euler("z", self._angle * t).as_matrix()
-        points = self._rotmat @ rot_arc @ (RIGHT * self._radius) + self._center
-        return points
+        phi = self._angle * np.asarray(t)
+        points = np.stack([np.cos(phi), np.sin(phi), np.zeros_like(phi)], axis=-1)
+        return (self._radius * points) @ self._rotmat.T + self._center
 
     def update_lengths(self):
         self.length = np.abs(self.radius * self.angle * (self.t_1 - self.t_0))
-- 
2.43.0


From c044405e9377b0b56c52e9daf86a92e5346815d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:15 +0000
Subject: [PATCH 12/61] fix: flat spherical involute ignored the z offset

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 6d3042c..1c4bcc3 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -157,7 +157,7 @@ def involute_sphere(t, r=1, C=0.5, angle=0, v_offs=ORIGIN, z_offs=0):
     z_offs: offset value applied in the z direction
     """
     if C == 0:
-        return involute_circle(t, r, angle, v_offs)
+        return involute_circle(t, r, angle, v_offs, z_offs)
     else:
         rot_z = scp_Rotation.from_euler("z", angles=t + angle)
 
-- 
2.43.0


From 4099176191d0515bfa2dcb3dd664f2afdd12f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:15 +0000
Subject: [PATCH 13/61] fix: flat conic cycloid raised NameError

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 1c4bcc3..63b0d69 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -227,7 +227,7 @@ def cycloid_cone(t, rb=1, rc=1, C=0.5, angle=0, v_offs=ORIGIN, z_offs=0):
     z_offs: offset value applied in the z direction
     """
     if C == 0:
-        return cycloid_circle(t, r, angle, v_offs)
+        return cycloid_circle(t, rb, rc, angle, v_offs, z_offs)
     else:
         rot_z = scp_Rotation.from_euler("z", t + angle)
 
-- 
2.43.0


From 658333932e957128f9c9dce4a742a58f853374dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:15 +0000
Subject: [PATCH 14/61] fix: octoid ignored the z offset

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 63b0d69..fd1dc30 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -676,4 +676,4 @@ def octoid(
     rot = scp_Rotation.from_euler("yz", angles=[PI, PI / 2 + angle])
     zshift = np.sqrt(sphere_rad**2 - base_rad**2)
     v = rot.apply(v)
-    return v + zshift * OUT
+    return v + (zshift + z_offs) * OUT
-- 
2.43.0


From 2923c278823fbf87135b02c18488a02c523a6dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:29 +0000
Subject: [PATCH 15/61] fix: reversing a NURB curve did not reverse its
 trimming and length lookup

---
 src/gggears/curve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index bd12635..7e02835 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1552,6 +1552,9 @@ class NurbCurve(Curve):
     def reverse(self):
         self.points = np.flip(self.points, axis=0)
         self.weights = np.flip(self.weights, axis=0)
+        self.t_0, self.t_1 = 1 - self.t_1, 1 - self.t_0
+        self.t2s_lookup["t"] = 1 - np.flip(self.t2s_lookup["t"])
+        self.t2s_lookup["s"] = 1 - np.flip(self.t2s_lookup["s"])
         return self
 
     @property
-- 
2.43.0


From a883f085d6e198f9145e303e095481137eb894d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:29 +0000
Subject: [PATCH 16/61] fix: moving the points of a NURB curve left its length
 outdated

---
 src/gggears/curve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 7e02835..cd32d99 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1563,6 +1563,8 @@ class NurbCurve(Curve):
 
     def apply_transform(self, transform):
         self.points = transform(self.points)
+        if self.active:
+            self.update_lengths()
         return self
 
 
@@ -1592,6 +1594,7 @@ class NURBSCurve(CurveChain):
             # knots start with 0 which is the first point
             idx = self.knots[k]
             curve.points = newpoints[idx : idx + curve.n_points]
+        self.update_lengths()
 
     @property
     def weights(self):
-- 
2.43.0


From 54336c3af927fb4e29b6d62b00a736c76a167669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:29 +0000
Subject: [PATCH 17/61] fix: bezier derivatives of the order of the point count
 or above

---
 src/gggears/function_generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index fd1dc30..2e29737 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -382,8 +382,8 @@ def nurbezier(t, points, weights):
 def bezier_diff_t(t, points, n=1):
     d = points.shape[0]
     diffpoints = points
-    if n > d:
-        return np.zeros(t.shape + points.shape)
+    if n >= d:
+        return np.zeros(np.shape(t) + points.shape[1:])
     for k in range(n):
         diffpoints = (d - k - 1) * (diffpoints[1:] - diffpoints[:-1])
     # diffpoints = points[1:] - points[:-1]
-- 
2.43.0


From b575bc6440e40b5542e55d802cc67db56ba46189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:29 +0000
Subject: [PATCH 18/61] fix: interpolating quadratic bezier missed its middle
 point

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 2e29737..a5dcf9b 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -542,7 +542,7 @@ def calc_nurbezier_arc(p0, p2, center):
 
 
 def calc_quadratic_bezier_interp(p0, p1, p2):
-    return np.array([p0, (4 * p1 - p0 - p2), p2])
+    return np.array([p0, (4 * p1 - p0 - p2) / 2, p2])
 
 
 def xyz_to_spherical(v, center=ORIGIN):
-- 
2.43.0


From 5cd1340dcd52ac3c63a2b614cbdb18522353e440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:29 +0000
Subject: [PATCH 19/61] fix: NURB conversion of a transformed curve modified
 its target and ignored reversal

---
 src/gggears/curve.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index cd32d99..6c1786e 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -927,9 +927,10 @@ def convert_curve_nurbezier(input_curve: Curve, skip_inactive=True, **kwargs):
         if isinstance(input_curve, NurbCurve):
             return input_curve
         elif isinstance(input_curve, TransformedCurve):
-            transform = input_curve.transform_method
-            convert = convert_curve_nurbezier(input_curve.target_curve, **kwargs)
-            convert.apply_transform(transform)
+            convert = convert_curve_nurbezier(input_curve.target_curve, **kwargs).copy()
+            if input_curve.t_0 > input_curve.t_1:
+                convert.reverse()
+            convert.apply_transform(input_curve.apply_transform)
             return convert
         elif isinstance(input_curve, LineCurve):
             bz_points = np.array([input_curve(0), input_curve(1)])
-- 
2.43.0


From 3c56783da94dda01c708b933eadf405e26219b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:29 +0000
Subject: [PATCH 20/61] fix: gradient of the surface fit cost was off by a
 factor of two

---
 src/gggears/gggears_convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_convert.py b/src/gggears/gggears_convert.py
index a7fca62..4df93f8 100644
--- a/src/gggears/gggears_convert.py
+++ b/src/gggears/gggears_convert.py
@@ -199,7 +199,7 @@ class GearToNurbs:
             dp = deriv_dpoints.T @ diff
             dt = np.diag(diff @ deriv_dt.T)
             dp = dp.reshape(points.shape)
-            return np.sum(diff * diff), inverse_allocator(dp, dt)
+            return np.sum(diff * diff) / 2, inverse_allocator(dp, dt)
 
         init_t = np.linspace(0, 1, o)[1:-1]
         if init_points is None:
@@ -246,7 +246,7 @@ class GearToNurbs:
             deriv_dpoints = -bezier_diff_p(t, points_flat.shape[0])
             dp = deriv_dpoints.T @ diff
             dp = dp.reshape(points.shape)
-            return np.sum(diff * diff), inverse_allocator(dp)
+            return np.sum(diff * diff) / 2, inverse_allocator(dp)
 
         init_points = bezierdc(np.linspace(0, 1, m), target_points)
         init_guess_x = inverse_allocator(init_points)
-- 
2.43.0


From 1db21170618169ec0b0012a0114cef4222f02f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:05 +0000
Subject: [PATCH 21/61] fix: joining NURB segments judged closedness by
 outdated lengths

---
 src/gggears/curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 6c1786e..62f2228 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1618,6 +1618,7 @@ class NURBSCurve(CurveChain):
             curve2.points[0] = midpoints
             curve1.weights[-1] = midweights
             curve2.weights[0] = midweights
+        self.update_lengths()
         if self.is_closed:
             midpoints = (self.curves[-1].points[-1] + self.curves[0].points[0]) / 2
             midweights = (self.curves[-1].weights[-1] + self.curves[0].weights[0]) / 2
@@ -1625,6 +1626,7 @@ class NURBSCurve(CurveChain):
             self.curves[0].points[0] = midpoints
             self.curves[-1].weights[-1] = midweights
             self.curves[0].weights[0] = midweights
+            self.update_lengths()
 
     def update_inactive_continuity(self):
         for k in range(len(self.curves)):
-- 
2.43.0


From b211e8296bde9501b499435353e545a2a772304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:05 +0000
Subject: [PATCH 22/61] fix: NURB conversion of a trimmed transformed curve
 ignored the trimming

---
 src/gggears/curve.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 62f2228..0aa159c 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -926,7 +926,12 @@ def convert_curve_nurbezier(input_curve: Curve, skip_inactive=True, **kwargs):
     else:
         if isinstance(input_curve, NurbCurve):
             return input_curve
-        elif isinstance(input_curve, TransformedCurve):
+        elif (
+            isinstance(input_curve, TransformedCurve)
+            # trimmed curves are approximated below
+            and min(input_curve.t_0, input_curve.t_1) == 0
+            and max(input_curve.t_0, input_curve.t_1) == 1
+        ):
             convert = convert_curve_nurbezier(input_curve.target_curve, **kwargs).copy()
             if input_curve.t_0 > input_curve.t_1:
                 convert.reverse()
-- 
2.43.0


From e0259cf6db3ae59128b3dc69c90e0b2605498c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:23 +0000
Subject: [PATCH 23/61] fix: cone angles from tooth numbers were only right for
 perpendicular axes

---
 src/gggears/gearmath.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index cf58ce7..ae424bd 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -26,12 +26,11 @@ def cone_angle_from_teeth(
     np.ndarray
         Array containing the cone angles (in radians) for gear 1 and gear 2.
     """
-    cosfi = np.cos(axis_angle)
     a = float(num_teeth_1)
     b = float(num_teeth_2)
-    e = np.sqrt((-(b**2) - 2 * a * b * cosfi - a**2 * cosfi) / (cosfi - 1))
-    gamma2 = np.arctan(e / a)
-    gamma1 = np.pi - axis_angle - gamma2
+    # gamma1 + gamma2 = axis_angle and sin(gamma1) / sin(gamma2) = a / b
+    gamma2 = np.arctan2(b * np.sin(axis_angle), a + b * np.cos(axis_angle))
+    gamma1 = axis_angle - gamma2
     return np.array((gamma1 * 2, gamma2 * 2))
 
 
-- 
2.43.0


From e35a886ec8052eb66c886f093e0c9e0734765b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:23 +0000
Subject: [PATCH 24/61] fix: backlash from axial distance did not invert the
 mesh distance calculation

---
 src/gggears/gearmath.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index ae424bd..f96f97a 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -139,19 +139,16 @@ def backlash_from_ax_distance(
         Backlash between the two gears.
     """
     if inside_ring:
-        d1 = r_base_1 * (-angle_base_1)
-        d2 = r_base_2 * (-angle_base_2)
-        a = np.arccos((r_base_2 - r_base_1) / Distance)
-        #  np.tan(a) - a + (d2 - d1 - backlash) / (r_base_2 - r_base_1) = 0
-        backlash = d2 - d1 - (-np.tan(a) + a) * (r_base_2 - r_base_1)
+        d1 = r_base_1 * np.abs(angle_base_1)
+        d2 = r_base_2 * np.abs(angle_base_2)
+        bl_sign = np.sign(d2 - d1)
+        a = np.arccos(np.abs((r_base_2 - r_base_1) / Distance))
+        backlash = 2 * bl_sign * (d2 - d1 - (np.tan(a) - a) * (r_base_2 - r_base_1))
     else:
-        d1 = r_base_1 * (-angle_base_1)
-        d2 = r_base_2 * (pitch_angle_2 / 2 + angle_base_2)
+        d1 = r_base_1 * angle_base_1
+        d2 = r_base_2 * (pitch_angle_2 / 2 - angle_base_2)
         a = np.arccos((r_base_1 + r_base_2) / Distance)
-        #  np.tan(a) - a + (d2 - d1 - backlash) / (r_base_1 + r_base_2) = 0
-        # (d2 - d1 - backlash) / (r_base_1 + r_base_2) = -np.tan(a) + a
-        # (d2 - d1 - backlash) = ( -np.tan(a) + a) * (r_base_1 + r_base_2)
-        backlash = d2 - d1 - (-np.tan(a) + a) * (r_base_1 + r_base_2)
+        backlash = 2 * (d2 - d1 + (np.tan(a) - a) * (r_base_1 + r_base_2))
     return backlash
 
 
-- 
2.43.0


From c4e53c300ef1866587ec12a0171ce7c9f651f5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:40 +0000
Subject: [PATCH 25/61] fix: bare bevel gears were meshed without regard to
 placement and module

---
 src/gggears/gggears_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index aa2021a..d7b0b12 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -1031,8 +1031,8 @@ class Gear:
         if self.cone.cone_angle != 0 or other.cone.cone_angle != 0:
             v0 = calc_bevel_gear_placement_vector(
                 target_dir,
-                self.cone,
-                other.cone,
+                self.cone_at_z(0),
+                other.cone_at_z(0),
                 self.tooth_param.inside_teeth,
                 other.tooth_param.inside_teeth,
             )
-- 
2.43.0


From 086047201ef00f1c057f5e571a9ded32f701f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:40 +0000
Subject: [PATCH 26/61] fix: helical gear inside a helical ring was tilted when
 meshed

---
 src/gggears/gggears_wrapper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 08f7d0a..8b4e6ba 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1168,7 +1168,11 @@ class HelicalGear(InvoluteGear):
         super().mesh_to(other, target_dir)
         # orientation correction
         rot_axis = normalize_vector(other.gearcore.center - self.gearcore.center)
-        angle_axis = self.beta + other.beta
+        if other.inside_teeth:
+            # same side of both axes: teeth are parallel with equal helix angles
+            angle_axis = other.beta - self.beta
+        else:
+            angle_axis = self.beta + other.beta
         rot = scp_Rotation.from_rotvec(rot_axis * angle_axis)
         self.gearcore.transform.orientation = (
             rot.as_matrix() @ self.gearcore.transform.orientation
-- 
2.43.0


From 33bb64d2a5ce32a7b5ca140f98645c154cf25dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:40 +0000
Subject: [PATCH 27/61] fix: helical gears did not accept backlash and angle
 bias when meshed

---
 src/gggears/gggears_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 8b4e6ba..d448fc3 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1163,9 +1163,9 @@ class HelicalGear(InvoluteGear):
         """Beta = helix angle of the gear."""
         return self.helix_angle
 
-    def mesh_to(self, other, target_dir=RIGHT):
+    def mesh_to(self, other, target_dir=RIGHT, backlash=0.0, angle_bias=0.0):
         # basic meshing
-        super().mesh_to(other, target_dir)
+        super().mesh_to(other, target_dir, backlash, angle_bias)
         # orientation correction
         rot_axis = normalize_vector(other.gearcore.center - self.gearcore.center)
         if other.inside_teeth:
-- 
2.43.0


From b66edc0b9674f8255d640224496366d97eeb9045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:11 +0000
Subject: [PATCH 28/61] fix: closed outlines of a single tooth were not closed

---
 src/gggears/gggears_core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index d7b0b12..d3fc3bd 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -411,7 +411,7 @@ class GearRefProfileExtended(GearRefProfile):
             ),
             self.rd_curve,
             self.tooth_curve,
-            self.ra_connector,
+            self.ra_connector.copy().reverse(),
         )
 
     @property
@@ -420,11 +420,11 @@ class GearRefProfileExtended(GearRefProfile):
         inside) ring."""
         return crv.CurveChain(
             self.tooth_curve,
-            self.ra_connector,
+            self.ra_curve,
             self.tooth_curve_mirror,
-            self.ro_connector_2,
+            self.ro_connector_2.copy().reverse(),
             self.ro_curve_tooth.copy().reverse(),
-            self.ro_connector_1.copy().reverse(),
+            self.ro_connector_1,
         )
 
     @classmethod
-- 
2.43.0


From 0d0e8ae0ba578fb2dd24a4d96bc8f0c03abdfd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:43 +0000
Subject: [PATCH 29/61] fix: continuous gear outline ignored the place of the
 slice

---
 src/gggears/gggears_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index d3fc3bd..37ef037 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -780,7 +780,7 @@ def generate_boundary(profile: GearRefProfile, toothdata: GearToothParam) -> crv
     def loc_func(t, curve=profile.profile):
         i = t * toothdata.num_teeth_act // 1
         t2 = t * toothdata.num_teeth_act % 1
-        return (
+        return profile.transform(
             curve(t2)
             @ scp_Rotation.from_euler("z", i * toothdata.pitch_angle).as_matrix().T
         )
-- 
2.43.0


From 15d6a9aad137543509b6bbc80401231f8347d81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:09 +0000
Subject: [PATCH 30/61] fix: apex of a gear with negative cone angle was
 reported on the wrong side

---
 src/gggears/gggears_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 37ef037..d4d9bdf 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -974,7 +974,7 @@ class Gear:
     def center_sphere(self):
         return (
             self.transform.center
-            + self.R * np.cos(self.cone.gamma) * self.transform.z_axis
+            + self.rp / np.tan(self.cone.gamma) * self.transform.z_axis
         )
 
     def curve_gen_at_z(self, z):
-- 
2.43.0


From 8778abdf4cb80d81a0b46b3ddee6237eb5fa953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:17 +0000
Subject: [PATCH 31/61] fix: reported cone apex of a placed bevel gear had the
 placement applied twice

---
 src/gggears/gggears_wrapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index d448fc3..2222eeb 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -90,8 +90,7 @@ class GearInfoMixin:
         """Center of the gear-cone for bevel gears.
 
         Spherical refers to the spherical gear-boundary curves."""
-        center_sph = self.cone_data.center / self.module
-        return self.gearcore.transform(center_sph)
+        return self.cone_data.center
 
     def center_transform_at_z(self, z) -> GearTransform:
         """Returns the transform-data that represents the center point of a gear-slice
-- 
2.43.0


From 77211fa9dd500d5d7847c67e9e79894ea69a9205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:17 +0000
Subject: [PATCH 32/61] fix: reported gear height depended on the position of
 the gear

---
 src/gggears/gggears_wrapper.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 2222eeb..e131fe6 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -188,11 +188,7 @@ class GearInfoMixin:
         # the height parameter is rather the width of the gear teeth,
         # which is the height for cylindrical gears but not for bevel gears
         # that is why it is reverse engineered from the shape recipe
-        z0, z1 = self.gearcore.z_vals[1], self.gearcore.z_vals[0]
-        c0, c1 = self.gearcore.shape_recipe.transform.center(
-            z0
-        ), self.gearcore.shape_recipe.transform.center(z1)
-        return np.linalg.norm((self.gearcore.transform(c0 - c1)))
+        return np.linalg.norm(self.center_point_top - self.center_point_bottom)
 
     def radii_data_gen(self, z) -> GearRefCircles:
         """Generates the reference circles of the gear at a given z-value."""
-- 
2.43.0


From d1de242db72e1225e0a054fa501f08f1deec338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:17 +0000
Subject: [PATCH 33/61] fix: height ratios of gears with intermediate levels
 were relative to the first level

---
 src/gggears/gggears_wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index e131fe6..0958168 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -228,7 +228,7 @@ class GearInfoMixin:
         return self.radii_data_gen(self.gearcore.z_vals[-1])
 
     def proportion_to_z(self, prop):
-        return prop * self.gearcore.z_vals[1] + (1 - prop) * self.gearcore.z_vals[0]
+        return prop * self.gearcore.z_vals[-1] + (1 - prop) * self.gearcore.z_vals[0]
 
     def p2z(self, prop):
         return self.proportion_to_z(prop)
@@ -470,7 +470,7 @@ class InvoluteGear(GearInfoMixin):
             Ratio of the height of the gear where the slice should be taken.
             0 means at the bottom, 1 at the top. Default is 0.
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = self.proportion_to_z(z_ratio)
         r = self.gearcore.shape_recipe(z).tooth_generator.get_base_radius()
         trf = self.gearcore.transform * self.gearcore.shape_recipe(z).transform
         circle_ref = crv.ArcCurve(radius=r, center=ORIGIN, angle=2 * PI).transform(trf)
@@ -729,7 +729,7 @@ class InvoluteGear(GearInfoMixin):
         -------
         Wire
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = self.proportion_to_z(z_ratio)
         profile = self.gearcore.curve_gen_at_z(z)
         edges = generate_boundary_edges(profile, self.gearcore.transform)
         return bd.Wire(edges)
@@ -1920,7 +1920,7 @@ class CycloidGear(GearInfoMixin):
         -------
         Wire
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = self.proportion_to_z(z_ratio)
         profile = self.gearcore.curve_gen_at_z(z)
         edges = generate_boundary_edges(profile, self.gearcore.transform)
         return bd.Wire(edges)
-- 
2.43.0


From b966b82c2df2fd68beb909bb46ff068f1ec48ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:34 +0000
Subject: [PATCH 34/61] fix: gears shared their placement arrays with each
 other and with the library constants

---
 src/gggears/gggears_base_classes.py |  6 ++++--
 src/gggears/gggears_core.py         |  2 +-
 src/gggears/gggears_wrapper.py      | 20 ++++++++++++--------
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index f9cad44..0828fd4 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -58,8 +58,10 @@ class TransformData:
         Scale factor of the transformation.
     """
 
-    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN)
-    orientation: np.ndarray = dataclasses.field(default_factory=lambda: UNIT3X3)
+    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN.copy())
+    orientation: np.ndarray = dataclasses.field(
+        default_factory=lambda: UNIT3X3.copy()
+    )
     scale: float = 1.0
 
     @property
diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index d4d9bdf..4a0b620 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -1062,7 +1062,7 @@ class Gear:
                 distance = self.rp + other.rp
             v0 = target_dir * distance + other.transform.center
             self.transform.center = v0
-            self.transform.orientation = other.transform.orientation
+            self.transform.orientation = np.copy(other.transform.orientation)
             self.transform.angle = calc_mesh_angle(
                 self.transform,
                 other.transform,
diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 0958168..dc0a965 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -580,7 +580,7 @@ class InvoluteGear(GearInfoMixin):
                 ),
             ),
             transform=GearTransform(
-                center=self.inputparam.center,
+                center=np.copy(self.inputparam.center),
                 angle=self.inputparam.angle,
                 scale=self.inputparam.module,
             ),
@@ -697,7 +697,9 @@ class InvoluteGear(GearInfoMixin):
             )
             v0 = target_dir * distance + other.gearcore.transform.center
             self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = other.gearcore.transform.orientation
+            self.gearcore.transform.orientation = np.copy(
+                other.gearcore.transform.orientation
+            )
             self.gearcore.transform.angle = (
                 calc_mesh_angle(
                     self.gearcore.transform,
@@ -712,8 +714,8 @@ class InvoluteGear(GearInfoMixin):
 
     def reset_location(self):
         """Resets the location of the gear to its original center and angle."""
-        self.gearcore.transform.center = ORIGIN
-        self.gearcore.transform.orientation = UNIT3X3
+        self.gearcore.transform.center = ORIGIN.copy()
+        self.gearcore.transform.orientation = UNIT3X3.copy()
         self.gearcore.transform.angle = 0
 
     def build_boundary_wire(self, z_ratio: float = 0):
@@ -1748,7 +1750,7 @@ class CycloidGear(GearInfoMixin):
                 ),
             ),
             transform=GearTransform(
-                center=self.inputparam.center,
+                center=np.copy(self.inputparam.center),
                 angle=self.inputparam.angle,
                 scale=self.inputparam.module,
             ),
@@ -1845,7 +1847,9 @@ class CycloidGear(GearInfoMixin):
                 distance = self.pitch_radius + other.pitch_radius
             v0 = target_dir * distance + other.gearcore.transform.center
             self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = other.gearcore.transform.orientation
+            self.gearcore.transform.orientation = np.copy(
+                other.gearcore.transform.orientation
+            )
             self.gearcore.transform.angle = calc_mesh_angle(
                 self.gearcore.transform,
                 other.gearcore.transform,
@@ -2107,8 +2111,8 @@ class InvoluteRack:
         self.number_of_teeth = number_of_teeth
         self.height = height
         self.pressure_angle = pressure_angle
-        self.position = position
-        self.orientation = orientation
+        self.position = np.copy(position)
+        self.orientation = np.copy(orientation)
         self.offset = offset
         self.module = module
         self.root_fillet = root_fillet
-- 
2.43.0


From 966a03dcac35e771c851acc5418fd6f5a34be22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:34 +0000
Subject: [PATCH 35/61] fix: reset_location did not return to the gear's
 original centre and angle

---
 src/gggears/gggears_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index dc0a965..cbfcbe4 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -714,9 +714,9 @@ class InvoluteGear(GearInfoMixin):
 
     def reset_location(self):
         """Resets the location of the gear to its original center and angle."""
-        self.gearcore.transform.center = ORIGIN.copy()
+        self.gearcore.transform.center = np.copy(self.inputparam.center)
         self.gearcore.transform.orientation = UNIT3X3.copy()
-        self.gearcore.transform.angle = 0
+        self.gearcore.transform.angle = self.inputparam.angle
 
     def build_boundary_wire(self, z_ratio: float = 0):
         """Generates a build123d Wire object of the gear-tooth slice at a given z-ratio.
-- 
2.43.0


From 3090ded1a37eba738a62fe20282ed79d9979312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:34 +0000
Subject: [PATCH 36/61] fix: a copied gear followed later changes of its
 original

---
 src/gggears/gggears_wrapper.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index cbfcbe4..eb93c3f 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -490,14 +490,13 @@ class InvoluteGear(GearInfoMixin):
         pitch_angle = 2 * PI / self.inputparam.number_of_teeth
         gamma = self.inputparam.cone_angle / 2
 
+        # copies of the gear share these functions, so they must not refer to self
+        num_teeth = self.inputparam.number_of_teeth
+        height = self.inputparam.height
+        crowning = self.inputparam.crowning
+
         def crowning_func(z, offset=0):
-            return (
-                offset
-                - (z * 2 / self.inputparam.height - 1) ** 2
-                * self.inputparam.crowning
-                / rp_ref
-                * 1e-3
-            )
+            return offset - (z * 2 / height - 1) ** 2 * crowning / rp_ref * 1e-3
 
         tooth_angle = (
             pitch_angle / 4
@@ -574,7 +573,7 @@ class InvoluteGear(GearInfoMixin):
                 ),
                 pitch_angle=pitch_angle,
                 transform=GearTransformRecipe(
-                    scale=lambda z: (1 - z * 2 * np.sin(gamma) / self.number_of_teeth),
+                    scale=lambda z: (1 - z * 2 * np.sin(gamma) / num_teeth),
                     center=lambda z: 1 * z * OUT * np.cos(gamma),
                     angle=angle_func,
                 ),
@@ -1688,14 +1687,13 @@ class CycloidGear(GearInfoMixin):
         gamma = self.inputparam.cone_angle / 2
         pitch_angle = 2 * PI / self.inputparam.number_of_teeth
 
+        # copies of the gear share these functions, so they must not refer to self
+        num_teeth = self.inputparam.number_of_teeth
+        height = self.inputparam.height
+        crowning = self.inputparam.crowning
+
         def crowning_func(z, offset=0):
-            return (
-                offset
-                - (z * 2 / self.inputparam.height - 1) ** 2
-                * self.inputparam.crowning
-                / rp_ref
-                * 1e-3
-            )
+            return offset - (z * 2 / height - 1) ** 2 * crowning / rp_ref * 1e-3
 
         tooth_angle = pitch_angle / 4 - self.inputparam.backlash / rp_ref
         spiral_coeff = np.tan(self.inputparam.helix_angle) / rp_ref
@@ -1743,8 +1741,7 @@ class CycloidGear(GearInfoMixin):
                 ),
                 pitch_angle=pitch_angle,
                 transform=GearTransformRecipe(
-                    scale=lambda z: 1
-                    * (1 - z * 2 * np.sin(gamma) / self.inputparam.number_of_teeth),
+                    scale=lambda z: 1 * (1 - z * 2 * np.sin(gamma) / num_teeth),
                     center=lambda z: 1 * z * OUT * np.cos(gamma),
                     angle=angle_func,
                 ),
-- 
2.43.0


From 5f978b2baee6bd8c8bfee7552e9949cff689f34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:41 +0000
Subject: [PATCH 37/61] fix: drawing the boundary wire of a gear turned the
 gear

---
 src/gggears/gggears_build123d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index 2f39e56..7be76f6 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -524,6 +524,9 @@ def generate_boundary_edges(
     if transform is None:
         # identity transform by default
         transform = GearTransform()
+    else:
+        # the angle is stepped below, the caller's transform must not follow
+        transform = copy.deepcopy(transform)
     nurb_profile = gearprofile_to_nurb(nurbprofile)
     # don't want to get more inputs about num of teeth, but without rounding this can
     # lose 1 tooth
-- 
2.43.0


From fe07f61f804b2aa54175d59a5cad42755e954b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:23 +0000
Subject: [PATCH 38/61] fix: copies of involute, octoid and moved curves kept
 following their original

---
 src/gggears/curve.py | 88 ++++++++++++++++++++++++--------------------
 1 file changed, 49 insertions(+), 39 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 0aa159c..4b04550 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1348,9 +1348,7 @@ class InvoluteCurve(Curve):
         self.v_offs = v_offs
         self.z_offs = z_offs
         super().__init__(
-            lambda t: involute_circle(
-                t, r=self.r, angle=self.angle, v_offs=self.v_offs, z_offs=self.z_offs
-            ),
+            self.involute_func,
             active=active,
             t0=t0,
             t1=t1,
@@ -1358,6 +1356,11 @@ class InvoluteCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def involute_func(self, t):
+        return involute_circle(
+            t, r=self.r, angle=self.angle, v_offs=self.v_offs, z_offs=self.z_offs
+        )
+
     @property
     def base_radius(self):
         return self.r
@@ -1384,14 +1387,7 @@ class SphericalInvoluteCurve(Curve):
         self.v_offs = v_offs
         self.z_offs = z_offs
         super().__init__(
-            lambda t: involute_sphere(
-                t,
-                r=self.r,
-                C=self.c_sphere,
-                angle=self.angle,
-                v_offs=self.v_offs,
-                z_offs=self.z_offs,
-            ),
+            self.involute_func,
             active,
             t0,
             t1,
@@ -1399,6 +1395,16 @@ class SphericalInvoluteCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def involute_func(self, t):
+        return involute_sphere(
+            t,
+            r=self.r,
+            C=self.c_sphere,
+            angle=self.angle,
+            v_offs=self.v_offs,
+            z_offs=self.z_offs,
+        )
+
     @property
     def center(self):
         return (
@@ -1440,21 +1446,24 @@ class OctoidCurve(Curve):
         self.z_offs = z_offs
         self.alpha = alpha
         super().__init__(
-            lambda t: octoid(
-                t,
-                base_rad=self.r,
-                sphere_rad=1 / self.c_sphere,
-                alpha=self.alpha,
-                angle=self.angle,
-                v_offs=self.v_offs,
-                z_offs=self.z_offs,
-            ),
+            self.octoid_func,
             active,
             t0,
             t1,
             enable_vectorize=enable_vectorize,
         )
 
+    def octoid_func(self, t):
+        return octoid(
+            t,
+            base_rad=self.r,
+            sphere_rad=1 / self.c_sphere,
+            alpha=self.alpha,
+            angle=self.angle,
+            v_offs=self.v_offs,
+            z_offs=self.z_offs,
+        )
+
     @property
     def center(self):
         return (
@@ -1490,7 +1499,7 @@ class TransformedCurve(Curve):
         self.transform_method = transform
 
         super().__init__(
-            lambda t: self.apply_transform(self.target_curve(t)),
+            self.transformed_func,
             active=self.target_curve.active,
             t0=0,
             t1=1,
@@ -1498,6 +1507,9 @@ class TransformedCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def transformed_func(self, t, **params):
+        return self.apply_transform(self.target_curve(t))
+
     def apply_transform(self, point):
         return self.transform_method(point, **self.params)
 
@@ -1509,19 +1521,19 @@ class MirroredCurve(TransformedCurve):
         self.plane_normal = normalize_vector(plane_normal)
         self.center = center
 
-        def mirror_func(p):
-            p2 = p - self.center
-            h = np.dot(p2, self.plane_normal)
-            if hasattr(h, "__iter__"):
-                return (
-                    p2
-                    - 2 * h[:, np.newaxis] * self.plane_normal[np.newaxis, :]
-                    + self.center
-                )
-            else:
-                return p2 - 2 * h * self.plane_normal + self.center
+        super().__init__(self.mirror_func, curve)
 
-        super().__init__(mirror_func, curve)
+    def mirror_func(self, p):
+        p2 = p - self.center
+        h = np.dot(p2, self.plane_normal)
+        if hasattr(h, "__iter__"):
+            return (
+                p2
+                - 2 * h[:, np.newaxis] * self.plane_normal[np.newaxis, :]
+                + self.center
+            )
+        else:
+            return p2 - 2 * h * self.plane_normal + self.center
 
 
 class RotatedCurve(TransformedCurve):
@@ -1532,13 +1544,11 @@ class RotatedCurve(TransformedCurve):
         self.angle = angle
         self.center = center
 
-        def rotate_func(p):
-            p2 = p - self.center
-            return (
-                scp_Rotation.from_rotvec(self.angle * self.axis).apply(p2) + self.center
-            )
+        super().__init__(self.rotate_func, curve)
 
-        super().__init__(rotate_func, curve)
+    def rotate_func(self, p):
+        p2 = p - self.center
+        return scp_Rotation.from_rotvec(self.angle * self.axis).apply(p2) + self.center
 
 
 class NurbCurve(Curve):
-- 
2.43.0


From 452bf84e0836ede7ff073588067bdf04681e5ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:13 +0000
Subject: [PATCH 39/61] fix: a failed build left a bevel gear taller than
 before

---
 src/gggears/gggears_build123d.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index 7be76f6..83e5755 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -94,14 +94,16 @@ class GearBuilder(GearToNurbs):
             # extend z_vals by 10% to ensure cutting intersection for cutting (split op.)
             gear.z_vals[-1] += side_surface_extension_ratio * zdiff
             gear.z_vals[0] -= side_surface_extension_ratio * zdiff
-            super().__init__(
-                gear=gear,
-                n_points_hz=n_points_hz,
-                n_points_vert=n_points_vert,
-                oversampling_ratio=oversampling_ratio,
-            )
-            # restore original z_vals
-            self.gear.z_vals = z_vals_save
+            try:
+                super().__init__(
+                    gear=gear,
+                    n_points_hz=n_points_hz,
+                    n_points_vert=n_points_vert,
+                    oversampling_ratio=oversampling_ratio,
+                )
+            finally:
+                # restore original z_vals
+                gear.z_vals = z_vals_save
             side_surfaces = self.gen_side_surfaces()
 
             # parameters of ref_solid depend on accurate (original) z_vals
-- 
2.43.0


From d8f557a131859321d3ed5fdbd9ea6d8e35ebcbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:48 +0000
Subject: [PATCH 40/61] fix: trimmed lines and long trimmed arcs were drawn
 with the wrong extent

---
 src/gggears/gggears_build123d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index 83e5755..0d89f18 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -554,8 +554,8 @@ def generate_boundary_edges(
 def arc_to_b123d(arc: crv.ArcCurve) -> bd.Edge:
     """Converts a gggears ArcCurve to a build123d Edge object."""
     if (arc.t_0, arc.t_1) != (0, 1):
-        # arc can be extended, better make a new one
-        arc2 = crv.ArcCurve.from_2_point_center(arc.p0, arc.p1, arc.center)
+        # arc can be trimmed or extended, better make a new one
+        arc2 = arc.transform(lambda p: p)
     else:
         arc2 = arc
 
@@ -583,7 +583,7 @@ def arc_to_b123d(arc: crv.ArcCurve) -> bd.Edge:
 
 def line_to_b123d(line: crv.LineCurve) -> bd.Edge:
     """Converts a gggears LineCurve to a build123d Edge object."""
-    return bd.Edge.make_line(np2v(line.p0), np2v(line.p1))
+    return bd.Edge.make_line(np2v(line(0)), np2v(line(1)))
 
 
 def curve_to_edges(curve: crv.Curve):
-- 
2.43.0


From 651c028726db72e1d7b92abb9c7283a37763f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:16 +0000
Subject: [PATCH 41/61] fix: drawing a moved curve moved the curve itself and
 ignored trimming

---
 src/gggears/gggears_build123d.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index 0d89f18..8d7981d 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -595,10 +595,6 @@ def curve_to_edges(curve: crv.Curve):
         return [arc_to_b123d(curve)]
     elif isinstance(curve, crv.LineCurve):
         return [line_to_b123d(curve)]
-    elif isinstance(curve, crv.TransformedCurve):
-        nurb = crv.convert_curve_nurbezier(curve.target_curve)
-        nurb.apply_transform(curve.transform_method)
-        return gen_splines(nurb)
     else:
         nurb = crv.convert_curve_nurbezier(curve)
         return gen_splines(nurb)
-- 
2.43.0


From 523051827ed212244df2c0e94c7fa03433e40bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:21 +0000
Subject: [PATCH 42/61] fix: bevel gears whose flank reaches the root raised
 with undercut enabled

---
 src/gggears/gearteeth.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index 9f55314..e4d14ae 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -548,8 +548,11 @@ def trim_involute_undercut(
             guess=guess,
             method=crv.IntersectMethod.MINDISTANCE,
         )
-    ps = tooth_curve.get_length_portions()
-    if sol.x[0] < ps[1]:
+    # a flank that reaches the root without an extension is not a chain
+    if (
+        isinstance(tooth_curve, crv.CurveChain)
+        and sol.x[0] < tooth_curve.get_length_portions()[1]
+    ):
         # undercut intersecting the involute-extension line is unlikely,
         # try again with a different guess
         sol = crv.find_curve_intersect(
-- 
2.43.0


From 82e28aaf6c6ea069d34a99eb374bafe3c4eccfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:21 +0000
Subject: [PATCH 43/61] fix: undercut tooth generators ignored their default
 limits

---
 src/gggears/gearteeth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index e4d14ae..b37485b 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -141,7 +141,8 @@ class InvoluteUndercutTooth(InvoluteTooth):
         self.pressure_angle = pressure_angle
         if ref_limits is None:
             self.ref_limits = ToothLimitParam(h_a=1, h_d=1.2)
-        self.ref_limits = ref_limits
+        else:
+            self.ref_limits = ref_limits
         self.pitch_angle = pitch_angle
 
     def generate_tooth_curve(self) -> crv.CurveChain:
@@ -281,7 +282,8 @@ class OctoidUndercutTooth(GearToothConicGenerator):
         self.pressure_angle = pressure_angle
         if ref_limits is None:
             self.ref_limits = ToothLimitParam(h_a=1, h_d=1.2)
-        self.ref_limits = ref_limits
+        else:
+            self.ref_limits = ref_limits
         self.pitch_angle = pitch_angle
 
     def generate_tooth_curve(self) -> crv.Curve:
-- 
2.43.0


From 50bd2ecb528397ecb57c0389308553e034d288d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:21 +0000
Subject: [PATCH 44/61] fix: setting the default undercut reference point
 raised TypeError

---
 src/gggears/gearteeth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index b37485b..0ab0e7c 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -197,7 +197,7 @@ class InvoluteUndercutTooth(InvoluteTooth):
                 return rack_curve(0)
 
     def set_default_undercut_ref_point(self):
-        self.undercut_ref_point = self.get_default_undercut_ref_point(self.ref_limits)
+        self.undercut_ref_point = self.get_default_undercut_ref_point()
         return self
 
 
-- 
2.43.0


From 199b26d409c258019caff827fbd8a26bcbabc47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:21 +0000
Subject: [PATCH 45/61] fix: crowning was off centre and of wrong size unless
 module was 1 and anchor 0

---
 src/gggears/gggears_wrapper.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index eb93c3f..5b16830 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -492,11 +492,13 @@ class InvoluteGear(GearInfoMixin):
 
         # copies of the gear share these functions, so they must not refer to self
         num_teeth = self.inputparam.number_of_teeth
-        height = self.inputparam.height
+        # z is measured in modules from the reference level of the gear
+        z_h = self.inputparam.height / self.inputparam.module
+        z_mid = z_h * (0.5 - self.inputparam.z_anchor)
         crowning = self.inputparam.crowning
 
         def crowning_func(z, offset=0):
-            return offset - (z * 2 / height - 1) ** 2 * crowning / rp_ref * 1e-3
+            return offset - ((z - z_mid) * 2 / z_h) ** 2 * crowning / rp_ref * 1e-3
 
         tooth_angle = (
             pitch_angle / 4
@@ -1689,11 +1691,13 @@ class CycloidGear(GearInfoMixin):
 
         # copies of the gear share these functions, so they must not refer to self
         num_teeth = self.inputparam.number_of_teeth
-        height = self.inputparam.height
+        # z is measured in modules from the reference level of the gear
+        z_h = self.inputparam.height / self.inputparam.module
+        z_mid = z_h * (0.5 - self.inputparam.z_anchor)
         crowning = self.inputparam.crowning
 
         def crowning_func(z, offset=0):
-            return offset - (z * 2 / height - 1) ** 2 * crowning / rp_ref * 1e-3
+            return offset - ((z - z_mid) * 2 / z_h) ** 2 * crowning / rp_ref * 1e-3
 
         tooth_angle = pitch_angle / 4 - self.inputparam.backlash / rp_ref
         spiral_coeff = np.tan(self.inputparam.helix_angle) / rp_ref
-- 
2.43.0


From c3832a9ebfcdfd60c4adb25a8a241c2365c255bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:21 +0000
Subject: [PATCH 46/61] fix: crowned gears were meshed by the reduced tooth
 width at the face

---
 src/gggears/gggears_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 5b16830..13e3f2e 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -455,7 +455,9 @@ class InvoluteGear(GearInfoMixin):
         Angle of the starting point of the involute curve of a tooth in the
         default position.
         """
-        tooth_gen = self.gearcore.shape_recipe(0).tooth_generator
+        # crowned teeth have their nominal width in the middle
+        z_mid = (self.gearcore.z_vals[0] + self.gearcore.z_vals[-1]) / 2
+        tooth_gen = self.gearcore.shape_recipe(z_mid).tooth_generator
         if isinstance(tooth_gen, (InvoluteTooth, InvoluteUndercutTooth)):
             return tooth_gen.get_base_angle()
         else:
-- 
2.43.0


From a99ad639bb6d57cd088f3d3392dc4e9c05aefb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:21 +0000
Subject: [PATCH 47/61] fix: adapting cycloid radii moved meshed gears back to
 their initial place

---
 src/gggears/gggears_wrapper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 13e3f2e..56a2e40 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1911,8 +1911,11 @@ class CycloidGear(GearInfoMixin):
                 / other.number_of_teeth
                 * self.number_of_teeth
             )
-        self.calc_params()
-        other.calc_params()
+        for gear in (self, other):
+            # the tooth shape changes, the place of the gear does not
+            transform = gear.gearcore.transform
+            gear.calc_params()
+            gear.gearcore.transform = transform
 
     def build_boundary_wire(self, z_ratio: float = 0):
         """Generates a build123d Wire object of the gear-tooth slice at a given z-ratio.
-- 
2.43.0


From 0d2543ef7099df6132a4a80f411d208364869010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:00 +0000
Subject: [PATCH 48/61] fix: the offset of a rack was not scaled by its module

---
 src/gggears/gggears_wrapper.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 56a2e40..feefa97 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -2209,8 +2209,11 @@ class InvoluteRack:
         )
 
         # Apply transformations to position, orient and scale the rack
-        self.part_transformed = self.part.translate(self.offset * UP * pitch)
-        self.part_transformed = self.part_transformed.scale(self.module)
+        # (a moved part would be scaled about its own location)
+        self.part_transformed = self.part.scale(self.module)
+        self.part_transformed = self.part_transformed.translate(
+            self.offset * UP * pitch * self.module
+        )
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
         self.part_transformed = (
@@ -2412,8 +2415,11 @@ class HelicalRack(InvoluteRack):
             self.part = bd.Part(bd.Part() + part0.fuse(part1))
 
         # Apply transformations to position, orient and scale the rack
-        self.part_transformed = self.part.translate(self.offset * UP * pitch)
-        self.part_transformed = self.part_transformed.scale(self.module)
+        # (a moved part would be scaled about its own location)
+        self.part_transformed = self.part.scale(self.module)
+        self.part_transformed = self.part_transformed.translate(
+            self.offset * UP * pitch * self.module
+        )
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
         self.part_transformed = (
-- 
2.43.0


From bb0ac6264856c65de0aad64db7f57d0d6db92c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:32 +0000
Subject: [PATCH 49/61] fix: line of action of tilted gears left the plane of
 the gears

---
 src/gggears/gggears_wrapper.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index feefa97..e9fafb9 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1975,6 +1975,12 @@ class LineOfAction:
         center1 = self.gear1.center_point_at_z(self.gear1.p2z(self.z_ratio))
         center2 = self.gear2.center_point_at_z(self.gear2.p2z(self.z_ratio))
 
+        # the gears may be tilted: turn around their axis
+        axis = self.gear1.gearcore.transform.z_axis
+
+        def rotate_vector(v, angle):
+            return scp_Rotation.from_rotvec(axis * angle).apply(v)
+
         def mirror_diffline(p):
             p1 = p - center1
             p_norm = p1 - np.dot(p1, diff_vector_unit) * diff_vector_unit
-- 
2.43.0


From d7ca431a7355c42cc5cf2dc8a26446c7b026ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:20 +0000
Subject: [PATCH 50/61] fix: gears made from the same parts changed each other

---
 src/gggears/gggears_core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 4a0b620..3d00bb1 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -908,6 +908,10 @@ class Gear:
         transform: GearTransform = None,
         cone: ConicData = None,
     ):
+        # gears made from the same parts must not change each other
+        tooth_param, tooth_generator, shape_recipe, transform, cone = copy.deepcopy(
+            (tooth_param, tooth_generator, shape_recipe, transform, cone)
+        )
         self.module = module
         self.z_vals = z_vals.astype(float)
         if tooth_generator is None:
-- 
2.43.0


From 02f10b76e37698636728c23897c0f1dfb71556fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:56 +0000
Subject: [PATCH 51/61] fix: extended arcs over half a turn were converted to
 the complementary arc

The 3-point form is exact only under half a turn, the check ignored trimming and extension.
---
 src/gggears/curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 4b04550..ae33011 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -941,7 +941,8 @@ def convert_curve_nurbezier(input_curve: Curve, skip_inactive=True, **kwargs):
             bz_points = np.array([input_curve(0), input_curve(1)])
             bz_weights = np.ones((2))
         elif isinstance(input_curve, ArcCurve):
-            if abs(input_curve.angle) < PI:
+            # only the used part of the arc counts
+            if abs(input_curve.angle * (input_curve.t_1 - input_curve.t_0)) < PI:
                 bz_points, bz_weights = calc_nurbezier_arc(
                     input_curve(0), input_curve(1), input_curve.center
                 )
-- 
2.43.0


From d3c907b1d27fb807fdfcf2f5c5dd7260a3f26bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:56 +0000
Subject: [PATCH 52/61] fix: flat spline fit with 5 or more points failed

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index ae33011..3e4a74a 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -886,7 +886,7 @@ def fit_nurb_optim(
         elif n_points == 4:
             initpoints = fit_bezier_hermite_cubic(target_curve)
         else:
-            hermite_points = fit_bezier_hermite_cubic(target_curve)
+            hermite_points = fit_bezier_hermite_cubic(target_curve)[:, :N_Dim]
             initpoints = np.zeros((n_points, N_Dim))
             initpoints[0] = hermite_points[0]
             initpoints[-1] = hermite_points[-1]
-- 
2.43.0


From 2c2d897d8dee3d1ae7bc97f84b724fbe2bb523e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:56 +0000
Subject: [PATCH 53/61] fix: arc of negative curvature did not end at its end
 point

---
 src/gggears/function_generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index a5dcf9b..8d581b1 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -285,7 +285,8 @@ def arc_from_2_point(t, p0=RIGHT, p1=UP, curvature=1.0, axis=OUT, revolutions=0.
         )
         d_angle += revolutions * PI * 2
 
-        angles = t * axis * d_angle
+        # arcs of negative curvature turn the other way
+        angles = t * axis * d_angle * np.sign(r)
         rot1 = scp_Rotation.from_rotvec(angles)
         return center + rot1.apply((p0 - center)).reshape(VSHAPE)
 
-- 
2.43.0


From fd2e77274e3886cc6fde589e324708e5c0473633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:56 +0000
Subject: [PATCH 54/61] fix: addendum, dedendum and outer lines of racks were
 points

---
 src/gggears/gggears_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 3d00bb1..e1c1c7c 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -172,13 +172,13 @@ def generate_reference_lines(
 ) -> RackRefLines:
     pitch_line = crv.LineCurve(p0=UP, p1=DOWN)
     addendum_line = crv.LineCurve(
-        p0=UP + RIGHT * limitparam.h_a, p1=UP + RIGHT * limitparam.h_a
+        p0=UP + RIGHT * limitparam.h_a, p1=DOWN + RIGHT * limitparam.h_a
     )
     dedendum_line = crv.LineCurve(
-        p0=UP - RIGHT * limitparam.h_d, p1=UP - RIGHT * limitparam.h_d
+        p0=UP - RIGHT * limitparam.h_d, p1=DOWN - RIGHT * limitparam.h_d
     )
     outside_line = crv.LineCurve(
-        p0=UP - RIGHT * limitparam.h_o, p1=UP - RIGHT * limitparam.h_o
+        p0=UP - RIGHT * limitparam.h_o, p1=DOWN - RIGHT * limitparam.h_o
     )
 
     return RackRefLines(
-- 
2.43.0


From 3f1b60284e4c510fa1cbc749d533f247e944a365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:00 +0000
Subject: [PATCH 55/61] fix: ring gears meshed to a pinion were placed opposite
 to the requested direction

The axial distance is negative when the first gear is the ring, so the ring
ended up on the other side of the pinion. Cycloid and bare gears already use
the absolute value.
---
 src/gggears/gearmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index f96f97a..f9f8d9d 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -83,7 +83,7 @@ def calc_involute_mesh_distance(
             + (d2 - d1 - backlash / 2 * bl_sign) / (r_base_2 - r_base_1),
             0,
         )
-        Dist = (r_base_2 - r_base_1) / np.cos(sol.x[0])
+        Dist = np.abs(r_base_2 - r_base_1) / np.cos(sol.x[0])
     else:
 
         # d1 = r_base_1 * (-angle_base_1)
-- 
2.43.0


From e7e6e93c901a4c6d532f3727e36208cc8504ba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:17 +0000
Subject: [PATCH 56/61] fix: scaling or dividing a curve chain raised
 AttributeError

---
 src/gggears/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 3e4a74a..347cb05 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -316,7 +316,7 @@ class Curve:
                 t0=0,
                 t1=1,
                 params={"curve": self, "val": other},
-                enable_vectorize=self.enable_vectorize,
+                enable_vectorize=False,
             )
         else:
             raise TypeError(
@@ -336,7 +336,7 @@ class Curve:
                 t0=0,
                 t1=1,
                 params={},
-                enable_vectorize=self.enable_vectorize,
+                enable_vectorize=False,
             )
         else:
             raise TypeError(
-- 
2.43.0


From 11982e784411b4050ab4861fc1c5f2c436dcfa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:51 +0000
Subject: [PATCH 57/61] fix: bevel gear meshed along the other gear's axis was
 placed at nan

---
 src/gggears/gearmath.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index f9f8d9d..35793f0 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -393,7 +393,12 @@ def calc_bevel_gear_placement_vector(
         angle_ref = gamma_2 - gamma_1 - offset / R
     else:
         angle_ref = gamma_1 + gamma_2 + offset / R
-    rot_ax = normalize_vector(np.cross(target_dir_norm, cone_data_2.transform.z_axis))
+    rot_ax = np.cross(target_dir_norm, cone_data_2.transform.z_axis)
+    if np.linalg.norm(rot_ax) < 1e-12:
+        # target_dir is parallel to the axis, use the same direction as
+        # calc_mesh_orientation()
+        rot_ax = np.cross(cone_data_2.transform.x_axis, cone_data_2.transform.z_axis)
+    rot_ax = normalize_vector(rot_ax)
     rot1 = scp_Rotation.from_rotvec(rot_ax * angle_ref)
     center_h_1 = R * np.cos(gamma_1)
     center_h_2 = R * np.cos(gamma_2)
-- 
2.43.0


From ab905d15588c1960c017fb384e2817e931581714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:31 +0000
Subject: [PATCH 58/61] fix: composing a plain transform with a gear transform
 lost the gear's angle

---
 src/gggears/gggears_base_classes.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index 0828fd4..df62819 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -76,6 +76,11 @@ class TransformData:
     def z_axis(self):
         return self.orientation[:, 2]
 
+    @property
+    def rotation(self):
+        """Rotation matrix of the complete transformation."""
+        return self.orientation
+
     @property
     def affine_matrix(self):
         return np.block(
@@ -86,7 +91,7 @@ class TransformData:
         if isinstance(other, TransformData):
             return TransformData(
                 center=self.center + self.orientation @ other.center * self.scale,
-                orientation=self.orientation @ other.orientation,
+                orientation=self.orientation @ other.rotation,
                 scale=self.scale * other.scale,
             )
         elif isinstance(other, np.ndarray):
@@ -136,7 +141,7 @@ class Transform(TransformData):
         if isinstance(other, TransformData):
             return Transform(
                 center=self.center + self.orientation @ other.center * self.scale,
-                orientation=self.orientation @ other.orientation,
+                orientation=self.orientation @ other.rotation,
                 scale=self.scale * other.scale,
             )
         elif isinstance(other, np.ndarray):
@@ -176,6 +181,11 @@ class GearTransformData(TransformData):
 
     angle: float = 0
 
+    @property
+    def rotation(self):
+        # override to include angle as well
+        return self.orientation @ scp_Rotation.from_euler("z", self.angle).as_matrix()
+
     @property
     def affine_matrix(self):
         # override to include angle as well
-- 
2.43.0


From 456f4d844e8a12bb5ceb4f8829385be4c50897bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:35 +0000
Subject: [PATCH 59/61] fix: arc of too large curvature between two points was
 nan

---
 src/gggears/curve.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 347cb05..0a4042e 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1256,8 +1256,15 @@ class ArcCurve(Curve):
 
         axis = normalize_vector(axis - np.dot(axis, dp) * dp)
 
-        if abs(r) < np.linalg.norm(p1 - p0) / 2:
-            r = np.linalg.norm(p1 - p0) / 2 * np.sign(r)
+        if abs(r) <= np.linalg.norm(p1 - p0) / 2:
+            # the smallest possible arc between the points is the half circle
+            return cls.from_point_center_angle(
+                p0=p0,
+                center=(p0 + p1) / 2,
+                angle=PI + revolutions * PI * 2,
+                axis=axis * np.sign(r),
+                active=active,
+            )
 
         h = np.sqrt(r**2 - (np.linalg.norm(p1 - p0) / 2) ** 2) * np.sign(r)
 
-- 
2.43.0


From f8c9b9e5a4c3c95bae1ff1c499eb0ef56c1de29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:17 +0000
Subject: [PATCH 60/61] fix: moving the reference lines of a rack changed the
 library's constants

---
 src/gggears/gggears_base_classes.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index df62819..91c6f91 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -444,14 +444,14 @@ class RackRefLines:
     @center.setter
     def center(self, value):
         diff = value - self.center
-        self.a_line.p0 += diff
-        self.a_line.p1 += diff
-        self.p_line.p0 += diff
-        self.p_line.p1 += diff
-        self.d_line.p0 += diff
-        self.d_line.p1 += diff
-        self.o_line.p0 += diff
-        self.o_line.p1 += diff
+        self.a_line.p0 = self.a_line.p0 + diff
+        self.a_line.p1 = self.a_line.p1 + diff
+        self.p_line.p0 = self.p_line.p0 + diff
+        self.p_line.p1 = self.p_line.p1 + diff
+        self.d_line.p0 = self.d_line.p0 + diff
+        self.d_line.p1 = self.d_line.p1 + diff
+        self.o_line.p0 = self.o_line.p0 + diff
+        self.o_line.p1 = self.o_line.p1 + diff
 
 
 @dataclasses.dataclass
-- 
2.43.0


From f6262085f411544af4b562ad45b8789cf5b1213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:39 +0000
Subject: [PATCH 61/61] fix: shifting a line or arc in place moved the points
 it was made from

---
 src/gggears/curve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 0a4042e..4081727 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1084,8 +1084,8 @@ class LineCurve(Curve):
     """Class to represent a line as a Curve."""
 
     def __init__(self, p0=ORIGIN, p1=ORIGIN, active=True, enable_vectorize=False):
-        self.p0 = p0
-        self.p1 = p1
+        self.p0 = np.copy(p0)
+        self.p1 = np.copy(p1)
         super().__init__(
             self.line_func,
             active,
@@ -1129,7 +1129,7 @@ class ArcCurve(Curve):
     ):
         self._radius = radius
         self._angle = angle
-        self._center = center
+        self._center = np.copy(center)
         self._yaw = yaw
         self._pitch = pitch
         self._roll = roll
-- 
2.43.0

