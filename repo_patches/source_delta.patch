From cb7c709f1989969c833a41102a1a943ec01cb8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:06 +0000
Subject: [PATCH 01/28] fix: report the first occurrence as index of every
 distinct knot

---
 src/Core/KnotVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index 75cbc22..6377d9a 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -73,7 +73,7 @@ vector<KnotVector::KnotPair> KnotVector::GetKnotPairs() const
         Numeric val = m_Values[i];
         if (val != last_value)
         {
-            result.emplace_back(i, last_value, multiplicity);
+            result.emplace_back(i - multiplicity, last_value, multiplicity);
             last_value = val;
             multiplicity = 1;
         }
-- 
2.43.0


From e573c36f97c2e70109626d086cf760b0cb598835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:07 +0000
Subject: [PATCH 02/28] fix: compare the end multiplicities when testing for a
 clamped knot vector

---
 src/Core/KnotVector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index 6377d9a..29e7d56 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -106,7 +106,8 @@ bool KnotVector::IsClamped() const
     {
         if (m_Values[count1] != 1.0) break;
     }
-    return count0 == count1;
+    // count1 is the index of the last knot below one
+    return count0 == (int)m_Values.size() - 1 - count1;
 }
 
 bool KnotVector::IsUniform() const
-- 
2.43.0


From 4694aa5a5882759bf785eabdd1611c3bfa38bf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:07 +0000
Subject: [PATCH 03/28] fix: treat knot vectors containing NaN as invalid

---
 src/Core/KnotVector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index 29e7d56..0b2f51e 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -13,7 +13,7 @@ static bool ValidateKnots(const vector<Numeric>& knots)
     Numeric last_value = 0.0;
     for (Numeric val : knots)
     {
-        if (val < last_value) return false;
+        if (!(val >= last_value)) return false; // also rejects NaN
         last_value = val;
     }
     if (last_value != 1.0) return false;
@@ -90,7 +90,7 @@ bool KnotVector::IsValid() const
     if (m_Values.back() != 1.0) return false;
     for (int i = 1; i < (int)m_Values.size(); ++i)
     {
-        if (m_Values[i] < m_Values[i - 1]) return false;
+        if (!(m_Values[i] >= m_Values[i - 1])) return false; // also rejects NaN
     }
     return true;
 }
-- 
2.43.0


From f0fe38e9e0c01694dd2e22213763cea38458013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:46 +0000
Subject: [PATCH 04/28] fix: leave the control points untouched when no knot
 could be removed

---
 src/Algorithm/KnotRemoval.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 97a6ac5..1cb1aac 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -24,6 +24,8 @@ namespace libnurbs
                     std::vector<Vec4>& points,
                     int degree, Numeric knot_remove, int times, Numeric tolerance)
     {
+        const std::vector<Vec4> original_points = points;
+
         // Convert to Homogeneous Coordinate
         for (auto& point: points)
         {
@@ -96,7 +98,11 @@ namespace libnurbs
         }
 
         // no remove operation succeeded
-        if (t == 0) return t;
+        if (t == 0)
+        {
+            points = original_points;
+            return t;
+        }
 
         int j = (2 * r - s - degree) / 2, i = j;
         for (int k = 1; k < t; k++)
-- 
2.43.0


From cbf9df73a0c24f8f6d5a0ac38b9ffb5018e11cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:46 +0000
Subject: [PATCH 05/28] fix: shrink by the number of knots actually removed

---
 src/Algorithm/KnotRemoval.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 1cb1aac..813a6cb 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -116,14 +116,14 @@ namespace libnurbs
         {
             points[j] = points[k];
         }
-        points.resize(points.size() - times);
+        points.resize(points.size() - t);
 
         /* Update knot vector */
         for (int k = r + 1; k <= m; k++)
         {
-            knots[k - times] = knots[k];
+            knots[k - t] = knots[k];
         }
-        knots.resize(knots.size() - times);
+        knots.resize(knots.size() - t);
 
         // Convert to Cartesian Coordinate
         for (auto& point: points)
-- 
2.43.0


From 47b271b529f5b1de7a16625c5c749f70b3f0fe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:46 +0000
Subject: [PATCH 06/28] fix: never remove a knot more often than it occurs

---
 src/Algorithm/KnotRemoval.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 813a6cb..62b0c23 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -35,6 +35,7 @@ namespace libnurbs
         auto& knots = knot_vector.Values();
         int s = knot_vector.GetMultiplicity(knot_remove);
         int r = knot_vector.FindSpanIndex(degree, knot_remove);
+        times = std::min(times, s); // cannot remove more knots than there are
 
         double tol = CalcTOL(points, tolerance);
 
@@ -44,7 +45,7 @@ namespace libnurbs
         int last = r - s;
         int first = r - degree;
 
-        std::vector<Vec4> temp(2 * degree + 1);
+        std::vector<Vec4> temp(2 * degree + 2);
         int t;
         for (t = 0; t < times; t++)
         {
-- 
2.43.0


From c6921b682ec996441050ba4cae03f7590fe68a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:46 +0000
Subject: [PATCH 07/28] fix: scale the knot removal tolerance by the Cartesian
 size of the control points

---
 src/Algorithm/KnotRemoval.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 62b0c23..03243d0 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -25,6 +25,7 @@ namespace libnurbs
                     int degree, Numeric knot_remove, int times, Numeric tolerance)
     {
         const std::vector<Vec4> original_points = points;
+        double tol = CalcTOL(points, tolerance);
 
         // Convert to Homogeneous Coordinate
         for (auto& point: points)
@@ -37,8 +38,6 @@ namespace libnurbs
         int r = knot_vector.FindSpanIndex(degree, knot_remove);
         times = std::min(times, s); // cannot remove more knots than there are
 
-        double tol = CalcTOL(points, tolerance);
-
         int n = (int)points.size() - 1;
         int m = n + degree + 1;
         int order = degree + 1;
-- 
2.43.0


From 520da5bd06af6a80a95c4f4b73c1634e7c627539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:42 +0000
Subject: [PATCH 08/28] fix: keep a knot whose removal would need a control
 point without positive weight

---
 src/Algorithm/KnotRemoval.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 03243d0..1ee8d4e 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -55,6 +55,7 @@ namespace libnurbs
             int j = last;
             int ii = 1;
             int jj = last - off;
+            bool positive = true; // only positive weights have a Cartesian control point
 
             while (j - i > t)
             {
@@ -63,6 +64,7 @@ namespace libnurbs
 
                 temp[ii] = (points[i] - (1.0 - alphai) * temp[ii - 1]) / alphai;
                 temp[jj] = (points[j] - alphaj * temp[jj + 1]) / (1.0 - alphaj);
+                positive = positive && temp[ii].w() > 0 && temp[jj].w() > 0;
 
                 i = i + 1;
                 ii = ii + 1;
@@ -81,7 +83,7 @@ namespace libnurbs
                 double alphai = (knot_remove - knots[i]) / (knots[i + order + t] - knots[i]);
                 dist = ((alphai * temp[ii + t + 1] + (1.0 - alphai) * temp[ii - 1]) - points[i]).norm();
             }
-            if (dist > tol) break;
+            if (dist > tol || !positive) break;
 
             i = first;
             j = last;
-- 
2.43.0


From 13b228918270b625b52205162d4207d617d636c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:18 +0000
Subject: [PATCH 09/28] fix: size the control grid by the number of knots
 actually removed

---
 src/Surface/Surface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index d34bb00..bd06e86 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -765,7 +765,6 @@ std::tuple<Surface, int> Surface::RemoveKnotU(Numeric knot_remove, int times, Nu
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount - times, points_ref.VCount};
     int t = 0;
     for (int it_v = 0; it_v < ControlPoints.VCount; ++it_v)
     {
@@ -773,6 +772,7 @@ std::tuple<Surface, int> Surface::RemoveKnotU(Numeric knot_remove, int times, Nu
         auto points = this->ControlPoints.GetV(it_v);
         int t_tmp = KnotRemoval(knots, points, result.DegreeU, knot_remove, times, tolerance);
         if (t_tmp == 0 || it_v != 0 && t != t_tmp) return {*this, 0};
+        if (it_v == 0) points_ref = {points_ref.UCount - t_tmp, points_ref.VCount};
         if (it_v == ControlPoints.VCount - 1) result.KnotsU = knots;
         points_ref.SetV(it_v, points);
         t = t_tmp;
@@ -784,7 +784,6 @@ std::tuple<Surface, int> Surface::RemoveKnotV(Numeric knot_remove, int times, Nu
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount, points_ref.VCount - times};
     int t = 0;
     for (int it_u = 0; it_u < ControlPoints.UCount; ++it_u)
     {
@@ -792,6 +791,7 @@ std::tuple<Surface, int> Surface::RemoveKnotV(Numeric knot_remove, int times, Nu
         auto points = this->ControlPoints.GetU(it_u);
         int t_tmp = KnotRemoval(knots, points, result.DegreeV, knot_remove, times, tolerance);
         if (t_tmp == 0 || it_u != 0 && t != t_tmp) return {*this, 0};
+        if (it_u == 0) points_ref = {points_ref.UCount, points_ref.VCount - t_tmp};
         if (it_u == ControlPoints.UCount - 1) result.KnotsV = knots;
         points_ref.SetU(it_u, points);
         t = t_tmp;
-- 
2.43.0


From 2e423c97484c63442e714eb856916e058cf56026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:39 +0000
Subject: [PATCH 10/28] fix: bound surface knot removal by the size of the
 whole control net

---
 include/libnurbs/Algorithm/KnotRemoval.hpp |  3 ++-
 src/Algorithm/KnotRemoval.cpp              |  9 +++++----
 src/Surface/Surface.cpp                    | 18 ++++++++++++++++--
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/libnurbs/Algorithm/KnotRemoval.hpp b/include/libnurbs/Algorithm/KnotRemoval.hpp
index 9912d32..16cf2b4 100644
--- a/include/libnurbs/Algorithm/KnotRemoval.hpp
+++ b/include/libnurbs/Algorithm/KnotRemoval.hpp
@@ -11,5 +11,6 @@ namespace libnurbs
                     int degree,
                     Numeric knot_remove,
                     int times,
-                    Numeric tolerance);
+                    Numeric tolerance,
+                    Numeric extent = 0.0);
 }
diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 1ee8d4e..3f69357 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -5,10 +5,10 @@ namespace
 {
     using namespace libnurbs;
 
-    constexpr Numeric CalcTOL(const vector<Vec4>& points, Numeric epsilon)
+    constexpr Numeric CalcTOL(const vector<Vec4>& points, Numeric epsilon, Numeric extent)
     {
         Numeric w_min = 1e12;
-        Numeric dist_max = 0.0;
+        Numeric dist_max = extent;
         for (const auto& point: points)
         {
             w_min = std::min(w_min, point.w());
@@ -22,10 +22,11 @@ namespace libnurbs
 {
     int KnotRemoval(KnotVector& knot_vector,
                     std::vector<Vec4>& points,
-                    int degree, Numeric knot_remove, int times, Numeric tolerance)
+                    int degree, Numeric knot_remove, int times, Numeric tolerance,
+                    Numeric extent)
     {
         const std::vector<Vec4> original_points = points;
-        double tol = CalcTOL(points, tolerance);
+        double tol = CalcTOL(points, tolerance, extent);
 
         // Convert to Homogeneous Coordinate
         for (auto& point: points)
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index bd06e86..94c889a 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -761,6 +761,20 @@ Surface Surface::InsertKnotV(std::span<Numeric> knots_to_insert) const
     return result;
 }
 
+namespace
+{
+    // largest distance of a control point of the whole net from the origin
+    Numeric GridExtent(const ControlPointGrid& grid)
+    {
+        Numeric extent = 0.0;
+        for (const auto& point : grid.Values)
+        {
+            extent = std::max(extent, point.head<3>().norm());
+        }
+        return extent;
+    }
+}
+
 std::tuple<Surface, int> Surface::RemoveKnotU(Numeric knot_remove, int times, Numeric tolerance) const
 {
     Surface result{*this};
@@ -770,7 +784,7 @@ std::tuple<Surface, int> Surface::RemoveKnotU(Numeric knot_remove, int times, Nu
     {
         auto knots = result.KnotsU;
         auto points = this->ControlPoints.GetV(it_v);
-        int t_tmp = KnotRemoval(knots, points, result.DegreeU, knot_remove, times, tolerance);
+        int t_tmp = KnotRemoval(knots, points, result.DegreeU, knot_remove, times, tolerance, GridExtent(ControlPoints));
         if (t_tmp == 0 || it_v != 0 && t != t_tmp) return {*this, 0};
         if (it_v == 0) points_ref = {points_ref.UCount - t_tmp, points_ref.VCount};
         if (it_v == ControlPoints.VCount - 1) result.KnotsU = knots;
@@ -789,7 +803,7 @@ std::tuple<Surface, int> Surface::RemoveKnotV(Numeric knot_remove, int times, Nu
     {
         auto knots = result.KnotsV;
         auto points = this->ControlPoints.GetU(it_u);
-        int t_tmp = KnotRemoval(knots, points, result.DegreeV, knot_remove, times, tolerance);
+        int t_tmp = KnotRemoval(knots, points, result.DegreeV, knot_remove, times, tolerance, GridExtent(ControlPoints));
         if (t_tmp == 0 || it_u != 0 && t != t_tmp) return {*this, 0};
         if (it_u == 0) points_ref = {points_ref.UCount, points_ref.VCount - t_tmp};
         if (it_u == ControlPoints.UCount - 1) result.KnotsV = knots;
-- 
2.43.0


From 82581f71a09fdc75b3035186e7c60f37230f2e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:00 +0000
Subject: [PATCH 11/28] fix: allocate enough control points and knots in degree
 elevation

---
 src/Algorithm/DegreeAlgo.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/DegreeAlgo.cpp b/src/Algorithm/DegreeAlgo.cpp
index 9d3d40a..142166a 100644
--- a/src/Algorithm/DegreeAlgo.cpp
+++ b/src/Algorithm/DegreeAlgo.cpp
@@ -53,10 +53,12 @@ namespace libnurbs
         int cind = 1;
         double ua = knots[0];
 
-        std::vector<Vec4> Qw((n + times) * 2);
+        // every non-empty knot span adds `times` control points
+        int nh_max = n + times * (n - degree + 1);
+        std::vector<Vec4> Qw(nh_max + 1);
         Qw[0] = points[0];
 
-        std::vector<Numeric> Uh((n + times) * 2 + ph + 1);
+        std::vector<Numeric> Uh(nh_max + ph + 2);
         std::fill(Uh.begin(), Uh.begin() + ph + 1, ua);
 
         std::vector<Vec4> bpts(points.begin(), points.begin() + degree + 1);
-- 
2.43.0


From 2b7b97f6d1b037ff53fef417e09647374a5f424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:24 +0000
Subject: [PATCH 12/28] fix: size the control grid of an elevated surface by
 its knots

---
 src/Surface/Surface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 94c889a..8292d95 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -817,7 +817,6 @@ Surface Surface::ElevateDegreeU(int times) const
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount + times, points_ref.VCount};
     for (int it_v = 0; it_v < ControlPoints.VCount; ++it_v)
     {
         auto degree = result.DegreeU;
@@ -829,6 +828,7 @@ Surface Surface::ElevateDegreeU(int times) const
             result.KnotsU = knots;
             result.DegreeU = degree;
         }
+        if (it_v == 0) points_ref = {static_cast<int>(points.size()), ControlPoints.VCount};
         points_ref.SetV(it_v, points);
     }
     return result;
@@ -838,7 +838,6 @@ Surface Surface::ElevateDegreeV(int times) const
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount, points_ref.VCount + times};
     for (int it_u = 0; it_u < ControlPoints.UCount; ++it_u)
     {
         auto degree = result.DegreeV;
@@ -850,6 +849,7 @@ Surface Surface::ElevateDegreeV(int times) const
             result.KnotsV = knots;
             result.DegreeV = degree;
         }
+        if (it_u == 0) points_ref = {ControlPoints.UCount, static_cast<int>(points.size())};
         points_ref.SetU(it_u, points);
     }
     return result;
-- 
2.43.0


From 4c77a2ef6055a1ff3279b2d5caa97ee6cfe7c13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:38 +0000
Subject: [PATCH 13/28] fix: keep the upper corner when expanding a bounding
 box by a point

---
 include/libnurbs/Core/BoundingBox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libnurbs/Core/BoundingBox.hpp b/include/libnurbs/Core/BoundingBox.hpp
index a42c058..0318ad1 100644
--- a/include/libnurbs/Core/BoundingBox.hpp
+++ b/include/libnurbs/Core/BoundingBox.hpp
@@ -23,7 +23,7 @@ namespace libnurbs
         void ExpandToInclude(const Vec3& point)
         {
             Min = Min.cwiseMin(point);
-            Max = Min.cwiseMax(point);
+            Max = Max.cwiseMax(point);
         }
 
         void ExpandToInclude(const BoundingBox& box)
-- 
2.43.0


From c4f52b5ef5d319c0ada6acf5a8703da8018cd2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:25 +0000
Subject: [PATCH 14/28] fix: subdivide rational curves in homogeneous
 coordinates for the bounding box

---
 src/Curve/Curve.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index fd0b05c..a6f6995 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -589,7 +589,7 @@ BoundingBox Curve::GetBoundingBox(Numeric epsilon) const
 
     auto to3 = [&](const Vec4& v) -> Vec3
     {
-        return v.head<3>();
+        return v.head<3>() / v.w();
     };
 
     // if p <= 5, use static buffer
@@ -600,6 +600,12 @@ BoundingBox Curve::GetBoundingBox(Numeric epsilon) const
     BoundingBox globalBox;
     for (auto& seg : segments)
     {
+        // subdivide in homogeneous coordinates
+        for (auto& point : seg.ControlPoints)
+        {
+            point = ToHomo(point);
+        }
+
         stack<vector<Vec4>> stack;
         stack.push(std::move(seg.ControlPoints));
         while (!stack.empty())
-- 
2.43.0


From 655b85ac9d0661e81a5818019afe6cc1d160d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:17 +0000
Subject: [PATCH 15/28] fix: replace instead of extend the knots and points
 when loading text

---
 src/Curve/Curve.cpp     | 3 +++
 src/Surface/Surface.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index a6f6995..68fe993 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -88,6 +88,9 @@ Curve& Curve::LoadFromFile(std::istream& is)
     }
 
     // TXT mode
+    Knots.Values().clear();
+    ControlPoints.clear();
+
     std::string line;
     std::string current_key;
     vector<std::string> content_lines;
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 8292d95..e356087 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -93,6 +93,9 @@ Surface& Surface::LoadFromFile(std::istream& is)
     else
     {
         // Text mode
+        KnotsU.Values().clear();
+        KnotsV.Values().clear();
+
         std::string line;
         std::string current_key;
         std::vector<std::string> content_lines;
-- 
2.43.0


From 955fc430370bcaf9d1c5e68ee947c40b436be9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:55 +0000
Subject: [PATCH 16/28] fix: write text files with enough significant digits
 for values of any magnitude

---
 src/Curve/Curve.cpp     | 2 +-
 src/Surface/Surface.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 68fe993..4668c4d 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -256,7 +256,7 @@ void Curve::SaveToFile(std::ostream& os, bool binary_mode) const
         // Write textual data
         os << "*Degree: " << Degree << "\n";
 
-        os << std::fixed << std::setprecision(std::numeric_limits<double>::digits10 + 2);
+        os << std::scientific << std::setprecision(std::numeric_limits<double>::digits10 + 2);
 
         os << "*Knots:\n";
         for (size_t i = 0; i < Knots.Values().size(); ++i)
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index e356087..b6b6a22 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -325,7 +325,7 @@ void Surface::SaveToFile(std::ostream& os, bool binary_mode) const
         os << "*DegreeU: " << DegreeU << "\n";
         os << "*DegreeV: " << DegreeV << "\n";
 
-        os << std::fixed << std::setprecision(std::numeric_limits<double>::digits10 + 2);
+        os << std::scientific << std::setprecision(std::numeric_limits<double>::digits10 + 2);
 
         // Write knot vectors
         os << "*KnotsU:\n";
-- 
2.43.0


From 355037b2f06204865fb35355caeb1dd41912c962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:23 +0000
Subject: [PATCH 17/28] fix: let a binary file only allocate what it contains

---
 src/Curve/Curve.cpp         |  6 ++++--
 src/Surface/Surface.cpp     | 10 ++++++----
 src/Utils/Serialization.cpp | 13 +++++++++----
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 4668c4d..0df8bbb 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -79,10 +79,12 @@ Curve& Curve::LoadFromFile(std::istream& is)
         {
             throw std::runtime_error("Failed to read ControlPoints count.");
         }
-        ControlPoints.resize(cp_count);
+        ControlPoints.clear();
         for (int i = 0; i < cp_count; ++i)
         {
-            Utils::ReadVec4FromStream(ControlPoints[i], is);
+            Vec4 vec;
+            Utils::ReadVec4FromStream(vec, is);
+            ControlPoints.push_back(vec);
         }
         return *this;
     }
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index b6b6a22..5023494 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -83,11 +83,13 @@ Surface& Surface::LoadFromFile(std::istream& is)
         }
 
         // Read control points
-        int cp_count = ControlPoints.UCount * ControlPoints.VCount;
-        ControlPoints.Values.resize(cp_count);
-        for (int i = 0; i < cp_count; ++i)
+        const size_t cp_count = static_cast<size_t>(ControlPoints.UCount) * ControlPoints.VCount;
+        ControlPoints.Values.clear();
+        for (size_t i = 0; i < cp_count; ++i)
         {
-            Utils::ReadVec4FromStream(ControlPoints.Values[i], is);
+            Vec4 vec;
+            Utils::ReadVec4FromStream(vec, is);
+            ControlPoints.Values.push_back(vec);
         }
     }
     else
diff --git a/src/Utils/Serialization.cpp b/src/Utils/Serialization.cpp
index d0b31cf..f3777dd 100644
--- a/src/Utils/Serialization.cpp
+++ b/src/Utils/Serialization.cpp
@@ -12,11 +12,16 @@ namespace libnurbs::Utils
         {
             throw std::runtime_error("Failed to read KnotVector count from binary stream.");
         }
-        knot_vector.Values().resize(count);
-        is.read(reinterpret_cast<char*>(knot_vector.Values().data()), sizeof(Numeric) * count);
-        if (is.fail())
+        knot_vector.Values().clear();
+        for (int i = 0; i < count; ++i)
         {
-            throw std::runtime_error("Failed to read KnotVector data from binary stream.");
+            Numeric knot;
+            is.read(reinterpret_cast<char*>(&knot), sizeof(Numeric));
+            if (is.fail())
+            {
+                throw std::runtime_error("Failed to read KnotVector data from binary stream.");
+            }
+            knot_vector.Values().push_back(knot);
         }
     }
 
-- 
2.43.0


From c6dae61875203cc7fa716dd8db2fb39172187f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:23 +0000
Subject: [PATCH 18/28] fix: reject text grid dimensions whose product
 overflows

---
 src/Surface/Surface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 5023494..0d75771 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -191,8 +191,8 @@ Surface& Surface::LoadFromFile(std::istream& is)
                 }
 
                 // Read control points
-                int expected_cp_count = ControlPoints.UCount * ControlPoints.VCount;
-                if (static_cast<int>(lines.size() - 1) != expected_cp_count)
+                const size_t expected_cp_count = static_cast<size_t>(ControlPoints.UCount) * ControlPoints.VCount;
+                if (lines.size() - 1 != expected_cp_count)
                 {
                     throw std::runtime_error("ControlPoints count does not match grid dimensions.");
                 }
-- 
2.43.0


From 4c7b3856d31737685375eefbcb8f4e0a27a7630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:03 +0000
Subject: [PATCH 19/28] fix: report a file that could not be written completely

---
 src/Curve/Curve.cpp     | 6 ++++++
 src/Surface/Surface.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 0df8bbb..b76f1eb 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -223,6 +223,12 @@ void Curve::SaveToFile(const std::string& filename, bool binary_mode) const
     }
 
     SaveToFile(file, binary_mode);
+
+    file.close();
+    if (file.fail())
+    {
+        throw std::runtime_error("Failed to write file: " + filename);
+    }
 }
 
 void Curve::SaveToFile(std::ostream& os, bool binary_mode) const
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 0d75771..9917638 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -280,6 +280,12 @@ void Surface::SaveToFile(const std::string& filename, bool binary_mode) const
     }
 
     SaveToFile(file, binary_mode);
+
+    file.close();
+    if (file.fail())
+    {
+        throw std::runtime_error("Failed to write file: " + filename);
+    }
 }
 
 
-- 
2.43.0


From a8fc3bdec48cc0e48da3cb027b95c4917d9746a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:08 +0000
Subject: [PATCH 20/28] fix: keep the surface parameter search inside the
 domain when its Hessian approximation overflows

---
 src/Surface/Surface.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 9917638..77c80f1 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -494,6 +494,9 @@ auto Surface::SearchParameter(const Vec3& point, Numeric init_u, Numeric init_v,
 
     auto line_search = [&](const Vec2& gk) -> Vec2
     {
+        // The approximation of the inverse Hessian may have overflowed
+        if (!(Hk * gk).allFinite()) Hk = Mat2x2::Identity();
+
         Numeric alpha = 1.0;
         Numeric c1 = 1e-4;
         Numeric beta = 0.9;
-- 
2.43.0


From 609edc11ca6dcedfca8a9d870026ef919a4061bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:39 +0000
Subject: [PATCH 21/28] fix: accept an element of the grid itself as fill value
 of InsertU

---
 include/libnurbs/Core/Grid.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libnurbs/Core/Grid.hpp b/include/libnurbs/Core/Grid.hpp
index 88b62ac..e438db2 100644
--- a/include/libnurbs/Core/Grid.hpp
+++ b/include/libnurbs/Core/Grid.hpp
@@ -109,6 +109,7 @@ namespace libnurbs
         void InsertU(int u_index, const T& default_value = T())
         {
             assert(u_index >= 0 && u_index < UCount);
+            const T value = default_value; // may refer to an element of this grid
             int float_idx = UCount * VCount - 1;
             UCount += 1;
             Values.resize(UCount * VCount);
@@ -127,7 +128,7 @@ namespace libnurbs
                 {
                     Values[i] = std::move(Values[float_idx--]);
                 }
-                Values[insertion_idx] = default_value;
+                Values[insertion_idx] = value;
             }
         }
     };
-- 
2.43.0


From dcefde5b4325a0f26bbbb0cb43957a91692e9bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:56 +0000
Subject: [PATCH 22/28] fix: do not move grid elements onto themselves in
 InsertU

---
 include/libnurbs/Core/Grid.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libnurbs/Core/Grid.hpp b/include/libnurbs/Core/Grid.hpp
index e438db2..c9be8b8 100644
--- a/include/libnurbs/Core/Grid.hpp
+++ b/include/libnurbs/Core/Grid.hpp
@@ -124,7 +124,8 @@ namespace libnurbs
                 {
                     Values[i] = std::move(Values[float_idx--]);
                 }
-                for (int i = insertion_idx - 1; i >= start_idx; --i)
+                // the elements before the insertion in the first row stay where they are
+                for (int i = insertion_idx - 1; i >= start_idx && it_v > 0; --i)
                 {
                     Values[i] = std::move(Values[float_idx--]);
                 }
-- 
2.43.0


From 4b06187becf34b7a79e29b85a89fd5d78418af96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:52 +0000
Subject: [PATCH 23/28] fix: use the actual knots when elevating the degree
 across knots of growing multiplicity

---
 src/Algorithm/DegreeAlgo.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/Algorithm/DegreeAlgo.cpp b/src/Algorithm/DegreeAlgo.cpp
index 142166a..6cd7b83 100644
--- a/src/Algorithm/DegreeAlgo.cpp
+++ b/src/Algorithm/DegreeAlgo.cpp
@@ -118,7 +118,6 @@ namespace libnurbs
                 int first = kind - 2;
                 int last = kind;
                 double den = ub - ua;
-                double bet = (ub - Uh[kind - 1]) / den;
 
                 for (int tr = 1; tr < oldr; tr++)
                 {
@@ -136,15 +135,8 @@ namespace libnurbs
 
                         if (j >= lbz)
                         {
-                            if (j - tr <= kind - ph + oldr)
-                            {
-                                double gam = (ub - Uh[j - tr]) / den;
-                                ebpts[kj].noalias() = gam * ebpts[kj] + (1.0 - gam) * ebpts[kj + 1];
-                            }
-                            else
-                            {
-                                ebpts[kj].noalias() = bet * ebpts[kj] + (1.0 - bet) * ebpts[kj + 1];
-                            }
+                            double gam = (ub - Uh[j - tr]) / den;
+                            ebpts[kj].noalias() = gam * ebpts[kj] + (1.0 - gam) * ebpts[kj + 1];
                         }
 
                         i = i + 1;
-- 
2.43.0


From 280d20fd634f51ba40ad872c74a05113fb6913c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:31 +0000
Subject: [PATCH 24/28] fix: RemoveKnot removed another knot when the value was
 off the knot by rounding

---
 src/Algorithm/KnotRemoval.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 3f69357..e8a89fd 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -1,4 +1,6 @@
 #include "libnurbs/Algorithm/KnotRemoval.hpp"
+#include <algorithm>
+#include "libnurbs/Algorithm/MathUtils.hpp"
 #include "libnurbs/Core/KnotVector.hpp"
 
 namespace
@@ -35,7 +37,15 @@ namespace libnurbs
         }
 
         auto& knots = knot_vector.Values();
-        int s = knot_vector.GetMultiplicity(knot_remove);
+        // knots are compared with a tolerance: continue with the interior knot that is meant
+        Numeric nearest = INVALID_VALUE;
+        for (Numeric knot: knots)
+        {
+            if (knot > knots.front() && knot < knots.back() &&
+                std::abs(knot - knot_remove) < std::abs(nearest - knot_remove)) nearest = knot;
+        }
+        if (Approx(nearest, knot_remove)) knot_remove = nearest;
+        int s = (int)std::count(knots.begin(), knots.end(), knot_remove);
         int r = knot_vector.FindSpanIndex(degree, knot_remove);
         times = std::min(times, s); // cannot remove more knots than there are
 
-- 
2.43.0


From c1cd0f6e76cd9568db022fd129e3cc7eb15c8f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:31 +0000
Subject: [PATCH 25/28] fix: overflow of the coefficients of high mixed surface
 derivatives

---
 src/Surface/Surface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 77c80f1..1502691 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -440,7 +440,7 @@ Grid<Vec3> Surface::EvaluateAll(Numeric u, Numeric v, int order_u, int order_v)
 
             for (int i = 1; i <= ou; ++i)
             {
-                const int bi = Binomial(ou, i);
+                const Numeric bi = Binomial(ou, i); // the product of two may exceed int
                 for (int j = 1; j <= ov; ++j)
                 {
                     Numeric Wders = homo_ders.Get(i, j).w();
-- 
2.43.0


From e3976dd6a5b0f63623e2227624182589f00eb9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:35 +0000
Subject: [PATCH 26/28] fix: degree elevation of curves with crowded or
 full-order interior knots

Interior knots within 1e-6 of each other (or one of multiplicity degree+1)
could count as more than the algorithm has room for, which wrote out of
bounds; an interior knot within 1e-6 of the end was merged with it.
---
 src/Algorithm/DegreeAlgo.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Algorithm/DegreeAlgo.cpp b/src/Algorithm/DegreeAlgo.cpp
index 6cd7b83..694ea0b 100644
--- a/src/Algorithm/DegreeAlgo.cpp
+++ b/src/Algorithm/DegreeAlgo.cpp
@@ -68,7 +68,9 @@ namespace libnurbs
         while (b < m)
         {
             int ii = b;
-            while (b < m && Approx(knots[b], knots[b + 1]))
+            // knots within the tolerance count as one, but as no more than an order, and never as the end
+            while (b < m && (knots[b] == knots[b + 1] || (Approx(knots[b], knots[b + 1]) &&
+                                                          knots[b + 1] < knots[std::min(ii + degree + 1, m)])))
             {
                 b = b + 1;
             }
@@ -79,7 +81,7 @@ namespace libnurbs
             int oldr = r;
             r = degree - mul;
 
-            int lbz = oldr > 0 ? (oldr + 2) / 2 : 1;
+            int lbz = oldr > 0 ? (oldr + 2) / 2 : oldr == 0 || a == degree ? 1 : 0; // 0: the curve jumps
             int rbz = r > 0 ? ph - (r + 1) / 2 : ph;
 
             if (r > 0)
@@ -171,7 +173,7 @@ namespace libnurbs
                 {
                     bpts[j] = nextbpts[j];
                 }
-                for (int j = r; j <= degree; j++)
+                for (int j = std::max(r, 0); j <= degree; j++)
                 {
                     bpts[j] = points[b - degree + j];
                 }
-- 
2.43.0


From 4d1117df4e6d7582fab9cf988f124bdba02f2ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:35 +0000
Subject: [PATCH 27/28] fix: Bezier extraction across a knot of multiplicity
 degree+1

Pieces were taken every degree control points, which is off by one after a
knot at which the curve jumps.
---
 src/Curve/Curve.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index b76f1eb..e2bc140 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -578,8 +578,11 @@ vector<Curve> Curve::ExtractBezier() const
     const auto& ctrl = bezier.ControlPoints;
     int p            = bezier.Degree;
 
-    for (int i = 0; i + p < ctrl.size(); i += p)
+    const auto& knots = bezier.Knots.Values();
+    for (int i = 0; i + p < ctrl.size(); ++i)
     {
+        if (knots[i + p] == knots[i + p + 1])
+            continue; // no span
         Curve seg;
         seg.Degree = p;
         seg.Knots  = KnotVector::Uniform(p, 2 * p + 2);
-- 
2.43.0


From 37f204a88cff2fa0e52258a2bddaf6e58d53fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:50 +0000
Subject: [PATCH 28/28] fix: alignment of patches with a collapsed edge

With fewer than four non-zero edges the axis most edges run along was taken
for that of u, also when the edges were those along v, and edges of v decided
on the sign of u.
---
 src/Surface/Surface.cpp | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 1502691..6a9d45f 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -937,6 +937,7 @@ Surface Surface::AlignParameterDomain(AlignAxis u_axis, AlignAxis v_axis)
     struct VectorInfo
     {
         Vec3 vector;
+        bool along_u; // an edge along u (else along v)
         // 角度
         Numeric angle1; // 与 major_axis1 的夹角
         Numeric angle2; // 与 major_axis2 的夹角
@@ -965,22 +966,23 @@ Surface Surface::AlignParameterDomain(AlignAxis u_axis, AlignAxis v_axis)
     };
 
     // 计算非零矢量并计算其与主要方向的夹角
-    auto add_vector_info = [&](const Vec3& vec)
+    auto add_vector_info = [&](const Vec3& vec, bool along_u)
     {
         if (vec.norm() > 1e-6)
         {
             VectorInfo info;
             info.vector = vec;
+            info.along_u = along_u;
             info.angle1 = compute_angle(vec, major_axis1);
             info.angle2 = compute_angle(vec, major_axis2);
             vectors.push_back(info);
         }
     };
 
-    add_vector_info(S10 - S00);
-    add_vector_info(S01 - S00);
-    add_vector_info(S11 - S10);
-    add_vector_info(S11 - S01);
+    add_vector_info(S10 - S00, true);
+    add_vector_info(S01 - S00, false);
+    add_vector_info(S11 - S10, false);
+    add_vector_info(S11 - S01, true);
 
     if (vectors.empty())
     {
@@ -994,8 +996,8 @@ Surface Surface::AlignParameterDomain(AlignAxis u_axis, AlignAxis v_axis)
 
     if (vectors.size() < 4)
     {
-        int count_axis1 = 0;
-        int count_axis2 = 0;
+        int count_axis1 = 0; // edges that speak for u running along major_axis1
+        int count_axis2 = 0; // edges that speak for u running along major_axis2
         Numeric du = 0;
         Numeric dv = 0;
 
@@ -1018,15 +1020,12 @@ Surface Surface::AlignParameterDomain(AlignAxis u_axis, AlignAxis v_axis)
             if (info.angle1 < info.angle2)
             {
                 // 分配给 major_axis1
-                ++count_axis1;
-                // 累加在该轴上的增量
-                du += GetAxisValue(info.vector, major_axis1);
+                ++(info.along_u ? count_axis1 : count_axis2);
             }
             else
             {
                 // 分配给 major_axis2
-                ++count_axis2;
-                dv += GetAxisValue(info.vector, major_axis2);
+                ++(info.along_u ? count_axis2 : count_axis1);
             }
         }
 
@@ -1034,16 +1033,21 @@ Surface Surface::AlignParameterDomain(AlignAxis u_axis, AlignAxis v_axis)
         {
             current_u_axis = major_axis1;
             current_v_axis = major_axis2;
-            u_sign = (du >= 0) ? 1 : -1;
-            v_sign = (dv >= 0) ? 1 : -1;
         }
         else
         {
             current_u_axis = major_axis2;
             current_v_axis = major_axis1;
-            u_sign = (dv >= 0) ? 1 : -1;
-            v_sign = (du >= 0) ? 1 : -1;
         }
+
+        for (const auto& info : vectors)
+        {
+            // 累加在该轴上的增量
+            if (info.along_u) du += GetAxisValue(info.vector, current_u_axis);
+            else dv += GetAxisValue(info.vector, current_v_axis);
+        }
+        u_sign = (du >= 0) ? 1 : -1;
+        v_sign = (dv >= 0) ? 1 : -1;
     }
     else
     {
-- 
2.43.0

