From 4707919d07c02b4ee00624dd77b32461216fb57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 001/123] fix: keep the line vector in step when the start
 point is set last

---
 trunk/src/geometry/GeoLine_Imp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trunk/src/geometry/GeoLine_Imp.hpp b/trunk/src/geometry/GeoLine_Imp.hpp
index 21b99b1..7242d1e 100644
--- a/trunk/src/geometry/GeoLine_Imp.hpp
+++ b/trunk/src/geometry/GeoLine_Imp.hpp
@@ -43,6 +43,7 @@ namespace ENigMA
         void CGeoLine<Real>::setStartPoint(const CGeoCoordinate<Real>& aPoint1)
         {
             this->m_startPoint = aPoint1;
+            this->m_vector = m_endPoint - aPoint1;
         }
 
         template <typename Real>
-- 
2.43.0


From 051d8127856f448ac79a0f9cbc0c45b5921aea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 002/123] fix: polygon normal and area sign when the first
 corner is reflex

---
 trunk/src/geometry/GeoPolygon_Imp.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/trunk/src/geometry/GeoPolygon_Imp.hpp b/trunk/src/geometry/GeoPolygon_Imp.hpp
index b408d1d..b968eca 100644
--- a/trunk/src/geometry/GeoPolygon_Imp.hpp
+++ b/trunk/src/geometry/GeoPolygon_Imp.hpp
@@ -69,21 +69,18 @@ namespace ENigMA
                 CGeoVector<Real> v0, v1;
                 CGeoNormal<Real> aNormal;
 
+                // Calculate normal vector of the polygon's plane (any corner may be reflex)
                 for (Integer i = 1; i < m_polyline.nbVertices() - 1; ++i)
                 {
-                    // Calculate normal vector of the polygon's plane
-                    v0 = m_polyline.vertex(i + 0) - m_polyline.vertex(i - 1);
-                    v1 = m_polyline.vertex(i + 1) - m_polyline.vertex(i - 1);
+                    v0 = m_polyline.vertex(i + 0) - m_polyline.vertex(0);
+                    v1 = m_polyline.vertex(i + 1) - m_polyline.vertex(0);
 
-                    aNormal = v0.cross(v1);
-
-                    if (aNormal.norm() > std::numeric_limits<Real>::epsilon())
-                    {
-                        aNormal.normalize();
-                        break;
-                    }
+                    aNormal += v0.cross(v1);
                 }
 
+                if (aNormal.norm() > std::numeric_limits<Real>::epsilon())
+                    aNormal.normalize();
+
                 this->m_normal = aNormal;
 
                 this->m_bNormal = true;
-- 
2.43.0


From 7ace0bdff4b514ae8f9835624187e527d0e9c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 003/123] fix: honour the clip tolerance for faces and edges
 lying on the plane

---
 trunk/src/geometry/GeoLine_Imp.hpp    | 2 +-
 trunk/src/geometry/GeoPolygon_Imp.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/geometry/GeoLine_Imp.hpp b/trunk/src/geometry/GeoLine_Imp.hpp
index 7242d1e..bb1846c 100644
--- a/trunk/src/geometry/GeoLine_Imp.hpp
+++ b/trunk/src/geometry/GeoLine_Imp.hpp
@@ -149,7 +149,7 @@ namespace ENigMA
             }
             else
             {
-                if (num < d)
+                if (num < d - aTolerance)
                 {
                     // Original line
                     p1 = this->m_startPoint;
diff --git a/trunk/src/geometry/GeoPolygon_Imp.hpp b/trunk/src/geometry/GeoPolygon_Imp.hpp
index b968eca..778fceb 100644
--- a/trunk/src/geometry/GeoPolygon_Imp.hpp
+++ b/trunk/src/geometry/GeoPolygon_Imp.hpp
@@ -160,7 +160,7 @@ namespace ENigMA
         {
             CGeoPolygon<Real> aPolygon;
 
-            CGeoLineList<Real> aLineList = m_polyline.clip(aPlane);
+            CGeoLineList<Real> aLineList = m_polyline.clip(aPlane, aTolerance);
 
             CGeoPolyline<Real> aPolyline(aLineList, false, aTolerance);
 
-- 
2.43.0


From 0d205945a2097e8a7f62fdb027a0110f3a7ec0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:03 +0000
Subject: [PATCH 004/123] fix: remove boxes from the digital tree by identifier

---
 trunk/src/geometry/GeoAdtree_Imp.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/trunk/src/geometry/GeoAdtree_Imp.hpp b/trunk/src/geometry/GeoAdtree_Imp.hpp
index fec9da5..96edc42 100644
--- a/trunk/src/geometry/GeoAdtree_Imp.hpp
+++ b/trunk/src/geometry/GeoAdtree_Imp.hpp
@@ -7,6 +7,7 @@
 // <Author> Billy Araujo </Author>
 // *****************************************************************************
 
+#include <algorithm>
 #include <array>
 
 #pragma once
@@ -153,7 +154,15 @@ namespace ENigMA
         template <typename Real>
         void CGeoAdtree6<Real>::remove(Integer anId)
         {
-            CGeoAdtreeNode6<Real>* node = m_nodes[anId];
+            auto it = std::find_if(m_nodes.begin(), m_nodes.end(), [anId](const CGeoAdtreeNode6<Real>* aNode) { return aNode->id == anId; });
+
+            if (it == m_nodes.end())
+                return;
+
+            CGeoAdtreeNode6<Real>* node = *it;
+
+            // The node stays in the tree and may be reused by another box
+            m_nodes.erase(it);
 
             node->id = -1;
 
-- 
2.43.0


From 0c6498a3dde71fa06853574667fceb93cd371368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 005/123] fix: start a hash grid build from empty cells and box

---
 trunk/src/geometry/GeoHashGrid_Imp.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trunk/src/geometry/GeoHashGrid_Imp.hpp b/trunk/src/geometry/GeoHashGrid_Imp.hpp
index 66d24d3..187b592 100644
--- a/trunk/src/geometry/GeoHashGrid_Imp.hpp
+++ b/trunk/src/geometry/GeoHashGrid_Imp.hpp
@@ -43,6 +43,8 @@ namespace ENigMA
         void CGeoHashGrid<Real>::build()
         {
             // Get bounding box
+            m_boundingBox.reset();
+
             for (Integer i = 0; i < static_cast<Integer>(CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjects.size()); ++i)
                 m_boundingBox.addCoordinate(CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjects[i]);
 
@@ -56,7 +58,7 @@ namespace ENigMA
             m_nbCellsXY = m_nbCellsX * m_nbCellsY;
             m_nbCells = m_nbCellsX * m_nbCellsY * m_nbCellsZ;
 
-            m_coordinateListPtr.resize(m_nbCells + 1);
+            m_coordinateListPtr.assign(m_nbCells + 1, 0);
 
             m_adDelta = m_boundingBox.max() - m_boundingBox.min();
 
-- 
2.43.0


From 6527d0af8ef01dcf48352b666019359877922839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 006/123] fix: rebuild, divide and search the octree
 consistently

---
 trunk/src/geometry/GeoOctree_Imp.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/trunk/src/geometry/GeoOctree_Imp.hpp b/trunk/src/geometry/GeoOctree_Imp.hpp
index fc43303..63787f8 100644
--- a/trunk/src/geometry/GeoOctree_Imp.hpp
+++ b/trunk/src/geometry/GeoOctree_Imp.hpp
@@ -136,7 +136,7 @@ namespace ENigMA
                     if (z < zmid)
                         return OL_FRONT_BOTTOM_LEFT;
                     else
-                        return OL_BACK_TOP_LEFT;
+                        return OL_FRONT_TOP_LEFT;
                 }
             }
             else
@@ -248,6 +248,10 @@ namespace ENigMA
         template <typename Real>
         void CGeoOctree<Real>::build()
         {
+            // Start from an empty tree
+            m_root = CGeoOctreeNode<Real>();
+            m_boundingBox.reset();
+
             // Get bounding box
             for (Integer i = 0; i < static_cast<Integer>(CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjects.size()); ++i)
                 m_boundingBox.addCoordinate(CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjects[i]);
@@ -255,13 +259,13 @@ namespace ENigMA
             const Real C_EPS = std::numeric_limits<Real>::epsilon();
 
             m_root.xmin = m_boundingBox.min().x() - C_EPS;
-            m_root.xmax = m_boundingBox.min().x() + C_EPS;
+            m_root.xmax = m_boundingBox.max().x() + C_EPS;
 
             m_root.ymin = m_boundingBox.min().y() - C_EPS;
-            m_root.ymax = m_boundingBox.min().y() + C_EPS;
+            m_root.ymax = m_boundingBox.max().y() + C_EPS;
 
             m_root.zmin = m_boundingBox.min().z() - C_EPS;
-            m_root.zmax = m_boundingBox.min().z() + C_EPS;
+            m_root.zmax = m_boundingBox.max().z() + C_EPS;
 
             m_root.xmid = (m_boundingBox.min().x() + m_boundingBox.max().x()) * 0.5;
             m_root.ymid = (m_boundingBox.min().y() + m_boundingBox.max().y()) * 0.5;
@@ -278,12 +282,13 @@ namespace ENigMA
         template <typename Real>
         CGeoOctreeNode<Real>& CGeoOctree<Real>::findRecursive(CGeoOctreeNode<Real>& anOctreeNode, const CGeoCoordinate<Real>& aCoordinate)
         {
-            Integer octreeLocation = static_cast<Integer>(dispatch(anOctreeNode, aCoordinate.x(), aCoordinate.y(), aCoordinate.z()));
+            // Undivided node
+            if (anOctreeNode.nodes.empty())
+                return anOctreeNode;
 
-            if (!anOctreeNode.isLeaf())
-                findRecursive(anOctreeNode.nodes[octreeLocation], aCoordinate);
+            Integer octreeLocation = static_cast<Integer>(dispatch(anOctreeNode, aCoordinate.x(), aCoordinate.y(), aCoordinate.z()));
 
-            return anOctreeNode.nodes[octreeLocation];
+            return findRecursive(anOctreeNode.nodes[octreeLocation], aCoordinate);
         }
 
         template <typename Real>
-- 
2.43.0


From ef2e05e72ef160a608e5cb047dab04d46efe0646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 007/123] fix: circle through three points with vertical or
 horizontal chords

---
 trunk/src/geometry/GeoCircle_Imp.hpp | 39 ++++++++++++----------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/trunk/src/geometry/GeoCircle_Imp.hpp b/trunk/src/geometry/GeoCircle_Imp.hpp
index 0668dbd..f3dd3db 100644
--- a/trunk/src/geometry/GeoCircle_Imp.hpp
+++ b/trunk/src/geometry/GeoCircle_Imp.hpp
@@ -17,34 +17,27 @@ namespace ENigMA
             Real xDelta_a = aPoint2.x() - aPoint1.x();
             Real yDelta_a = aPoint2.y() - aPoint1.y();
 
-            Real xDelta_b = aPoint3.x() - aPoint2.x();
-            Real yDelta_b = aPoint3.y() - aPoint2.y();
+            Real xDelta_b = aPoint3.x() - aPoint1.x();
+            Real yDelta_b = aPoint3.y() - aPoint1.y();
 
-            if (std::fabs(xDelta_a) <= aTolerance * aTolerance && std::fabs(yDelta_b) <= aTolerance * aTolerance)
+            Real det = xDelta_a * yDelta_b - yDelta_a * xDelta_b;
+
+            if (std::fabs(det) <= aTolerance * aTolerance)
             {
-                this->m_center.x() = 0.5 * (aPoint2.x() + aPoint3.x());
-                this->m_center.y() = 0.5 * (aPoint1.y() + aPoint2.y());
-                this->m_center.z() = aPoint1.z();
-                this->m_radius = (aPoint1 - this->m_center).norm();
+                // Collinear points
+                this->m_center << 0.0, 0.0, 0.0;
+                this->m_radius = 0.0;
             }
             else
             {
-                Real aSlope = yDelta_a / xDelta_a; //
-                Real bSlope = yDelta_b / xDelta_b;
-
-                if (std::fabs(aSlope - bSlope) <= aTolerance * aTolerance)
-                {
-                    this->m_center << 0.0, 0.0, 0.0;
-                    this->m_radius = 0.0;
-                }
-                else
-                {
-                    this->m_center.x() = (aSlope * bSlope * (aPoint1.y() - aPoint3.y()) + bSlope * (aPoint1.x() + aPoint2.x()) - aSlope * (aPoint2.x() + aPoint3.x())) / (2.0 * (bSlope - aSlope));
-                    this->m_center.y() = -(m_center.x() - (aPoint1.x() + aPoint2.x()) * 0.5) / aSlope + (aPoint1.y() + aPoint2.y()) * 0.5;
-                    this->m_center.z() = aPoint1.z();
-
-                    this->m_radius = (aPoint1 - this->m_center).norm();
-                }
+                Real sDelta_a = xDelta_a * xDelta_a + yDelta_a * yDelta_a;
+                Real sDelta_b = xDelta_b * xDelta_b + yDelta_b * yDelta_b;
+
+                this->m_center.x() = aPoint1.x() + (yDelta_b * sDelta_a - yDelta_a * sDelta_b) / (2.0 * det);
+                this->m_center.y() = aPoint1.y() + (xDelta_a * sDelta_b - xDelta_b * sDelta_a) / (2.0 * det);
+                this->m_center.z() = aPoint1.z();
+
+                this->m_radius = (aPoint1 - this->m_center).norm();
             }
         }
 
-- 
2.43.0


From 91572c997a82c6b6e5daf4c8c92170379aad7707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 008/123] fix: bounding boxes of circles and spheres away from
 the origin

---
 trunk/src/geometry/GeoCircle_Imp.hpp | 4 ++--
 trunk/src/geometry/GeoSphere_Imp.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/src/geometry/GeoCircle_Imp.hpp b/trunk/src/geometry/GeoCircle_Imp.hpp
index f3dd3db..fe49770 100644
--- a/trunk/src/geometry/GeoCircle_Imp.hpp
+++ b/trunk/src/geometry/GeoCircle_Imp.hpp
@@ -99,8 +99,8 @@ namespace ENigMA
             {
                 this->m_boundingBox.reset();
 
-                CGeoCoordinate<Real> aCoordinate1(-this->m_radius, -this->m_radius, 0.0);
-                CGeoCoordinate<Real> aCoordinate2(+this->m_radius, +this->m_radius, 0.0);
+                CGeoCoordinate<Real> aCoordinate1(this->m_center.x() - this->m_radius, this->m_center.y() - this->m_radius, this->m_center.z());
+                CGeoCoordinate<Real> aCoordinate2(this->m_center.x() + this->m_radius, this->m_center.y() + this->m_radius, this->m_center.z());
 
                 this->m_boundingBox.addCoordinate(aCoordinate1);
                 this->m_boundingBox.addCoordinate(aCoordinate2);
diff --git a/trunk/src/geometry/GeoSphere_Imp.hpp b/trunk/src/geometry/GeoSphere_Imp.hpp
index 5274631..5cbe824 100644
--- a/trunk/src/geometry/GeoSphere_Imp.hpp
+++ b/trunk/src/geometry/GeoSphere_Imp.hpp
@@ -123,8 +123,8 @@ namespace ENigMA
             {
                 this->m_boundingBox.reset();
 
-                CGeoCoordinate<Real> aCoordinate1(-m_radius, -m_radius, -m_radius);
-                CGeoCoordinate<Real> aCoordinate2(+m_radius, +m_radius, +m_radius);
+                CGeoCoordinate<Real> aCoordinate1(m_center.x() - m_radius, m_center.y() - m_radius, m_center.z() - m_radius);
+                CGeoCoordinate<Real> aCoordinate2(m_center.x() + m_radius, m_center.y() + m_radius, m_center.z() + m_radius);
 
                 this->m_boundingBox.addCoordinate(aCoordinate1);
                 this->m_boundingBox.addCoordinate(aCoordinate2);
-- 
2.43.0


From 8ad2a0f24779f7c12910709a9bd581227a0056d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:36 +0000
Subject: [PATCH 009/123] fix: normal of a circle in the xy plane

---
 trunk/src/geometry/GeoCircle_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/geometry/GeoCircle_Imp.hpp b/trunk/src/geometry/GeoCircle_Imp.hpp
index fe49770..715d7b8 100644
--- a/trunk/src/geometry/GeoCircle_Imp.hpp
+++ b/trunk/src/geometry/GeoCircle_Imp.hpp
@@ -76,7 +76,7 @@ namespace ENigMA
         {
             if (!this->m_bNormal || bReCalculate)
             {
-                this->m_normal << 1.0, 0.0, 0.0;
+                this->m_normal << 0.0, 0.0, 1.0;
                 this->m_bNormal = true;
             }
         }
-- 
2.43.0


From cfaf55dfdc634880a207129991eec31b0264b3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 010/123] fix: CGeoLine::contains reports the start point of
 the line

---
 trunk/src/geometry/GeoLine_Imp.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trunk/src/geometry/GeoLine_Imp.hpp b/trunk/src/geometry/GeoLine_Imp.hpp
index bb1846c..224cd8c 100644
--- a/trunk/src/geometry/GeoLine_Imp.hpp
+++ b/trunk/src/geometry/GeoLine_Imp.hpp
@@ -379,6 +379,12 @@ namespace ENigMA
 
             CGeoVector<Real> v = aPoint - m_startPoint;
 
+            if (v.norm() < aTolerance)
+            {
+                anIntersectionType = IT_VERTEX;
+                return true;
+            }
+
             Real angle = m_vector.angle(v);
 
             if (angle > 3.14 / 180.0) // 1 degree
-- 
2.43.0


From 947723a20c52b3acd5041e5b2a80d15e93081b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 011/123] fix: CGeoLine::contains tests the distance to the
 line instead of a one degree cone

---
 trunk/src/geometry/GeoLine_Imp.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/trunk/src/geometry/GeoLine_Imp.hpp b/trunk/src/geometry/GeoLine_Imp.hpp
index 224cd8c..07f1311 100644
--- a/trunk/src/geometry/GeoLine_Imp.hpp
+++ b/trunk/src/geometry/GeoLine_Imp.hpp
@@ -385,17 +385,18 @@ namespace ENigMA
                 return true;
             }
 
-            Real angle = m_vector.angle(v);
-
-            if (angle > 3.14 / 180.0) // 1 degree
-                return false;
-
             CGeoNormal<Real> n = m_vector;
             n.normalize();
 
-            Real s = n.dot(v) / m_vector.norm();
+            Real length = m_vector.norm();
 
-            if (s >= -aTolerance && s <= 1.0 + aTolerance)
+            // Distance to the line, allowing for rounding of the coordinates
+            if (n.cross(v).norm() > aTolerance + std::sqrt(std::numeric_limits<Real>::epsilon()) * length)
+                return false;
+
+            Real s = n.dot(v) / length;
+
+            if (s > -aTolerance && s < 1.0 + aTolerance)
             {
                 if (s <= aTolerance || s >= 1.0 - aTolerance)
                     anIntersectionType = IT_VERTEX;
-- 
2.43.0


From a5aec0e06f8248a2d9d844be7b1576456d5b5da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:43 +0000
Subject: [PATCH 012/123] fix: distance between lines keeps the nearest point
 on the second line

---
 trunk/src/geometry/GeoLine_Imp.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/trunk/src/geometry/GeoLine_Imp.hpp b/trunk/src/geometry/GeoLine_Imp.hpp
index 07f1311..570d68d 100644
--- a/trunk/src/geometry/GeoLine_Imp.hpp
+++ b/trunk/src/geometry/GeoLine_Imp.hpp
@@ -470,6 +470,19 @@ namespace ENigMA
 
             Real mub = (d1343 + d4321 * mua) / d4343;
 
+            // Nearest point lies beyond the end of the second line
+            if (mub < 0.0 || mub > 1.0)
+            {
+                mub = (mub < 0.0) ? 0.0 : 1.0;
+
+                mua = (d4321 * mub - d1321) / d2121;
+
+                if (mua < 0.0)
+                    mua = 0.0;
+
+                if (mua > 1.0)
+                    mua = 1.0;
+            }
             aPoint1 = this->startPoint() + mua * this->vector();
             aPoint2 = aLine.startPoint() + mub * aLine.vector();
 
-- 
2.43.0


From 70928dd4af6c66f7ee3549a9948d9975da1b0b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:14 +0000
Subject: [PATCH 013/123] fix: CGeoTriangle::intersects with a line calculates
 the normal it uses

---
 trunk/src/geometry/GeoTriangle_Imp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trunk/src/geometry/GeoTriangle_Imp.hpp b/trunk/src/geometry/GeoTriangle_Imp.hpp
index 1ca0251..9eed751 100644
--- a/trunk/src/geometry/GeoTriangle_Imp.hpp
+++ b/trunk/src/geometry/GeoTriangle_Imp.hpp
@@ -266,6 +266,8 @@ namespace ENigMA
         template <typename Real>
         bool CGeoTriangle<Real>::intersects(CGeoLine<Real>& aLine, CGeoCoordinate<Real>& aNewPoint, CGeoIntersectionType& anIntersectionType, const Real aTolerance)
         {
+            this->calculateNormal();
+
             CGeoPlane<Real> aPlane(this->normal(), this->normal().dot(this->vertex(0)));
 
             if (aLine.intersects(aPlane, aNewPoint, anIntersectionType, aTolerance))
-- 
2.43.0


From 68aab2306f76d2da5839d8ff1046f7ff7b62454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:44 +0000
Subject: [PATCH 014/123] fix: CGeoTriangle::contains rejects points off the
 plane of the triangle

---
 trunk/src/geometry/GeoTriangle_Imp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trunk/src/geometry/GeoTriangle_Imp.hpp b/trunk/src/geometry/GeoTriangle_Imp.hpp
index 9eed751..e91c129 100644
--- a/trunk/src/geometry/GeoTriangle_Imp.hpp
+++ b/trunk/src/geometry/GeoTriangle_Imp.hpp
@@ -291,6 +291,9 @@ namespace ENigMA
 
             this->calculateNormal();
 
+            if (std::fabs(this->normal().dot(aPoint - this->m_vertices[0])) > aTolerance + std::sqrt(std::numeric_limits<Real>::epsilon() * this->m_area))
+                return false;
+
             Integer w = 0;
 
             Real smin = std::numeric_limits<Real>::max();
-- 
2.43.0


From cbbe01ca735ab85923c18ad59a1668b3dd6db286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 015/123] fix: CGeoTriangle::contains reports points on an edge

---
 trunk/src/geometry/GeoTriangle_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/geometry/GeoTriangle_Imp.hpp b/trunk/src/geometry/GeoTriangle_Imp.hpp
index e91c129..fd6fd0a 100644
--- a/trunk/src/geometry/GeoTriangle_Imp.hpp
+++ b/trunk/src/geometry/GeoTriangle_Imp.hpp
@@ -322,7 +322,7 @@ namespace ENigMA
                 }
             }
 
-            if (std::fabs(s[(w + 0) % 3] - (s[(w + 1) % 3] + s[(w + 2) % 3])) < aTolerance)
+            if (std::fabs(s[w]) < aTolerance)
                 anIntersectionType = IT_EDGE;
             else
                 anIntersectionType = IT_INTERNAL;
-- 
2.43.0


From e0e43fedcfbb58cc0bb73208241e57e548b03608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:50 +0000
Subject: [PATCH 016/123] fix: distance from a point to a triangle considers
 its edges

---
 trunk/src/geometry/GeoTriangle_Imp.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trunk/src/geometry/GeoTriangle_Imp.hpp b/trunk/src/geometry/GeoTriangle_Imp.hpp
index fd6fd0a..1a4771a 100644
--- a/trunk/src/geometry/GeoTriangle_Imp.hpp
+++ b/trunk/src/geometry/GeoTriangle_Imp.hpp
@@ -348,14 +348,15 @@ namespace ENigMA
                 // Get shortest distance
                 for (Integer i = 0; i < 3; ++i)
                 {
-                    CGeoCoordinate<Real> aVertex = this->vertex(i);
+                    CGeoLine<Real> anEdge(this->vertex((i + 0) % 3), this->vertex((i + 1) % 3));
 
-                    Real dist = (aPoint - aVertex).norm();
+                    CGeoCoordinate<Real> anEdgePoint;
+                    Real dist;
 
-                    if (dist < aDistance)
+                    if (anEdge.distance(aPoint, anEdgePoint, dist, aTolerance) && dist < aDistance)
                     {
                         aDistance = dist;
-                        aNewPoint = aVertex;
+                        aNewPoint = anEdgePoint;
                     }
                 }
             }
-- 
2.43.0


From 118c06973d15d5e89b883b32c1e3ba6804181467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:46 +0000
Subject: [PATCH 017/123] fix: intersection point of overlapping lines that
 share an end point lies on both

---
 trunk/src/geometry/GeoLine_Imp.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trunk/src/geometry/GeoLine_Imp.hpp b/trunk/src/geometry/GeoLine_Imp.hpp
index 570d68d..f553044 100644
--- a/trunk/src/geometry/GeoLine_Imp.hpp
+++ b/trunk/src/geometry/GeoLine_Imp.hpp
@@ -267,6 +267,9 @@ namespace ENigMA
                 {
                     aPoint = this->m_startPoint;
 
+                    if (d2 <= aTolerance)
+                        aPoint = this->m_endPoint;
+
                     if (+db.dot(da) >= aTolerance * aTolerance)
                     {
                         anIntersectionType = IT_INTERNAL;
@@ -274,9 +277,6 @@ namespace ENigMA
                     }
                     else
                     {
-                        if (d2 <= aTolerance)
-                            aPoint = this->m_endPoint;
-
                         anIntersectionType = IT_VERTEX;
                         return true;
                     }
@@ -286,6 +286,9 @@ namespace ENigMA
                 {
                     aPoint = this->m_startPoint;
 
+                    if (d4 <= aTolerance)
+                        aPoint = this->m_endPoint;
+
                     if (-db.dot(da) >= aTolerance * aTolerance)
                     {
                         anIntersectionType = IT_INTERNAL;
@@ -293,9 +296,6 @@ namespace ENigMA
                     }
                     else
                     {
-                        if (d4 <= aTolerance)
-                            aPoint = this->m_endPoint;
-
                         anIntersectionType = IT_VERTEX;
                         return true;
                     }
-- 
2.43.0


From cce26492d207997efaee4794ba00b895fe851146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:10 +0000
Subject: [PATCH 018/123] fix: coplanar triangles of opposite orientation are
 recognised

---
 trunk/src/geometry/GeoTriangle_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/geometry/GeoTriangle_Imp.hpp b/trunk/src/geometry/GeoTriangle_Imp.hpp
index 1a4771a..3bd8bff 100644
--- a/trunk/src/geometry/GeoTriangle_Imp.hpp
+++ b/trunk/src/geometry/GeoTriangle_Imp.hpp
@@ -155,7 +155,7 @@ namespace ENigMA
 
             Real c = this->normal().cross(aTriangle.normal()).norm();
 
-            if (c <= aTolerance && std::fabs(d1 - d2) <= aTolerance)
+            if (c <= aTolerance && std::fabs(s1[0]) <= aTolerance)
             {
                 // Triangles are co-planar
                 for (Integer k = 0; k < 3; ++k)
-- 
2.43.0


From 1ecf9a75b86f73b88a1de900f4cd0a95311b33e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:08 +0000
Subject: [PATCH 019/123] fix: CGeoPolyhedron::close builds the new face from
 open edges only

---
 trunk/src/geometry/GeoPolyhedron_Imp.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/trunk/src/geometry/GeoPolyhedron_Imp.hpp b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
index c33b46f..712e219 100644
--- a/trunk/src/geometry/GeoPolyhedron_Imp.hpp
+++ b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
@@ -268,6 +268,8 @@ namespace ENigMA
         {
             CGeoLineList<Real> aLineList;
 
+            std::vector<CGeoLine<Real>> sLines;
+
             for (auto it = m_polygons.begin(); it != m_polygons.end(); it++)
             {
                 CGeoPolyline<Real> aPolyline = it->second.polyline();
@@ -282,11 +284,21 @@ namespace ENigMA
 
                     if (d1 <= aTolerance && d2 <= aTolerance)
                     {
-                        aLineList.addLine(aLine);
+                        // A line already shared by two polygons is not open
+                        auto itl = std::find_if(sLines.begin(), sLines.end(), [&](const CGeoLine<Real>& anOther) {
+                            return (anOther.startPoint() - aLine.endPoint()).norm() <= aTolerance && (anOther.endPoint() - aLine.startPoint()).norm() <= aTolerance;
+                        });
+
+                        if (itl != sLines.end())
+                            sLines.erase(itl);
+                        else
+                            sLines.emplace_back(aLine);
                     }
                 }
             }
 
+            for (auto itl = sLines.begin(); itl != sLines.end(); itl++)
+                aLineList.addLine(*itl);
             // Add new polygon
             if (aLineList.nbLines() > 2)
             {
-- 
2.43.0


From d2bcef5707edd5796cf29fefefbc11f83db36e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:24 +0000
Subject: [PATCH 020/123] fix: CGeoPolyhedron::cut returns the part on the
 other side of the plane as the second half

---
 trunk/src/geometry/GeoPolyhedron_Imp.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/trunk/src/geometry/GeoPolyhedron_Imp.hpp b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
index 712e219..8cb2400 100644
--- a/trunk/src/geometry/GeoPolyhedron_Imp.hpp
+++ b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
@@ -568,17 +568,16 @@ namespace ENigMA
         template <typename Real>
         CGeoPolyhedron<Real> CGeoPolyhedron<Real>::cut(CGeoPolyhedron<Real>& aNewPolyhedron, CGeoPolygon<Real>& aNewPolygon, const Integer aNewPolygonId, CGeoPlane<Real>& aPlane, const Real aTolerance)
         {
-            aNewPolyhedron = this->clip(aNewPolygon, aNewPolygonId, aPlane, aTolerance);
+            CGeoPlane<Real> aPlaneInv(-aPlane.normal(), -aPlane.d());
+
+            aNewPolyhedron = this->clip(aNewPolygon, aNewPolygonId, aPlaneInv, aTolerance);
             return this->clip(aNewPolygon, aNewPolygonId, aPlane, aTolerance);
         }
 
         template <typename Real>
         CGeoPolyhedron<Real> CGeoPolyhedron<Real>::cut(CGeoPolyhedron<Real>& aNewPolyhedron, CGeoPolygon<Real>& aNewPolygon, const Integer aNewPolygonId, CGeoPlane<Real>& aPlane, Real volumeFractionReq, Real& volumeFractionAct, Integer& nIterations, const Integer nMaxIterations, const Real aNormalizedTolerance, const Real aTolerance)
         {
-            CGeoPlane<Real> aPlaneInv;
-            aPlaneInv.normal() = -aPlane.normal();
-            aPlaneInv.setD(aPlane.d());
-
+            CGeoPlane<Real> aPlaneInv(-aPlane.normal(), -aPlane.d());
             aNewPolyhedron = this->clip(aNewPolygon, aNewPolygonId, aPlaneInv, 1.0 - volumeFractionReq, volumeFractionAct, nIterations, nMaxIterations, aNormalizedTolerance, aTolerance);
             return this->clip(aNewPolygon, aNewPolygonId, aPlane, volumeFractionReq, volumeFractionAct, nIterations, nMaxIterations, aNormalizedTolerance, aTolerance);
         }
-- 
2.43.0


From e0a4126d12354778856bb92544a5e4342c47995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:38 +0000
Subject: [PATCH 021/123] fix: CGeoConvexHull drops vertices that are not
 corners

---
 trunk/src/geometry/GeoConvexHull_Imp.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/trunk/src/geometry/GeoConvexHull_Imp.hpp b/trunk/src/geometry/GeoConvexHull_Imp.hpp
index 429bc36..e2e62d8 100644
--- a/trunk/src/geometry/GeoConvexHull_Imp.hpp
+++ b/trunk/src/geometry/GeoConvexHull_Imp.hpp
@@ -75,9 +75,13 @@ namespace ENigMA
             {
                 while (k >= 2)
                 {
-                    Real c = (sNewExtVertices[k - 2].v2D - sNewExtVertices[k - 1].v2D).cross(sNewExtVertices[k - 2].v2D - sExtVertices[i].v2D).z();
+                    CGeoVector<Real> va = sNewExtVertices[k - 2].v2D - sNewExtVertices[k - 1].v2D;
+                    CGeoVector<Real> vb = sNewExtVertices[k - 2].v2D - sExtVertices[i].v2D;
 
-                    if (c <= 0)
+                    Real c = va.cross(vb).z();
+
+                    // Keep corners only (vertices on a straight side are subject to rounding)
+                    if (c < -std::sqrt(std::numeric_limits<Real>::epsilon()) * va.norm() * vb.norm())
                         break;
 
                     k--;
@@ -91,9 +95,13 @@ namespace ENigMA
             {
                 while (k >= t)
                 {
-                    Real c = (sNewExtVertices[k - 2].v2D - sNewExtVertices[k - 1].v2D).cross(sNewExtVertices[k - 2].v2D - sExtVertices[i].v2D).z();
+                    CGeoVector<Real> va = sNewExtVertices[k - 2].v2D - sNewExtVertices[k - 1].v2D;
+                    CGeoVector<Real> vb = sNewExtVertices[k - 2].v2D - sExtVertices[i].v2D;
+
+                    Real c = va.cross(vb).z();
 
-                    if (c <= 0)
+                    // Keep corners only (vertices on a straight side are subject to rounding)
+                    if (c < -std::sqrt(std::numeric_limits<Real>::epsilon()) * va.norm() * vb.norm())
                         break;
 
                     k--;
-- 
2.43.0


From 121157934a3d5109889389f34aaa53935c4405f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:14 +0000
Subject: [PATCH 022/123] fix: CGeoConvexHull projects onto the plane of the
 points

---
 trunk/src/geometry/GeoConvexHull_Imp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/src/geometry/GeoConvexHull_Imp.hpp b/trunk/src/geometry/GeoConvexHull_Imp.hpp
index e2e62d8..81b539f 100644
--- a/trunk/src/geometry/GeoConvexHull_Imp.hpp
+++ b/trunk/src/geometry/GeoConvexHull_Imp.hpp
@@ -43,9 +43,9 @@ namespace ENigMA
             vy.normalize();
 
             CGeoCoordinateSystem<Real> aCoordinateSystem;
-            aCoordinateSystem.col(0) << vx;
-            aCoordinateSystem.col(1) << vy;
-            aCoordinateSystem.col(2) << vz;
+            aCoordinateSystem.row(0) << vx.transpose();
+            aCoordinateSystem.row(1) << vy.transpose();
+            aCoordinateSystem.row(2) << vz.transpose();
 
             // Project to 2D plane
             std::vector<SVertex<Real>> sExtVertices;
-- 
2.43.0


From 9937db17806f4b4cb7ea6487d462ae08935ccdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:33 +0000
Subject: [PATCH 023/123] fix: CGeoConvexHull orders points with equal abscissa
 independently of rounding

---
 trunk/src/geometry/GeoConvexHull_Imp.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/trunk/src/geometry/GeoConvexHull_Imp.hpp b/trunk/src/geometry/GeoConvexHull_Imp.hpp
index 81b539f..d442d09 100644
--- a/trunk/src/geometry/GeoConvexHull_Imp.hpp
+++ b/trunk/src/geometry/GeoConvexHull_Imp.hpp
@@ -70,6 +70,22 @@ namespace ENigMA
             // Sort points lexicographically
             std::sort(sExtVertices.begin(), sExtVertices.end());
 
+            // Rounding must not decide the order of points with the same abscissa
+            Real tol = 0.0;
+
+            for (Integer i = 0; i < n; ++i)
+                tol = std::max(tol, sExtVertices[i].v2D.norm());
+
+            tol *= std::sqrt(std::numeric_limits<Real>::epsilon());
+
+            for (Integer i = 1; i < n; ++i)
+            {
+                if (sExtVertices[i].v2D.x() - sExtVertices[i - 1].v2D.x() <= tol)
+                    sExtVertices[i].v2D.x() = sExtVertices[i - 1].v2D.x();
+            }
+
+            std::sort(sExtVertices.begin(), sExtVertices.end());
+
             // Build lower hull
             for (Integer i = 0; i < n; ++i)
             {
-- 
2.43.0


From 47c0b2fdc60e1ec39b8879a54ac4edeba4f47f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:03 +0000
Subject: [PATCH 024/123] fix: CGeoVertexList::removeCollinear leaves lists of
 fewer than three vertices alone

---
 trunk/src/geometry/GeoVertexList_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/geometry/GeoVertexList_Imp.hpp b/trunk/src/geometry/GeoVertexList_Imp.hpp
index 93c3fb6..87c9a0c 100644
--- a/trunk/src/geometry/GeoVertexList_Imp.hpp
+++ b/trunk/src/geometry/GeoVertexList_Imp.hpp
@@ -82,7 +82,7 @@ namespace ENigMA
         template <typename Real>
         void CGeoVertexList<Real>::removeCollinear(const Real aTolerance)
         {
-            if (m_vertices.size() == 0)
+            if (m_vertices.size() < 3)
             {
                 return;
             }
-- 
2.43.0


From 2fccf90d8f3a758cca9571792d8d1a4e44c49346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:33 +0000
Subject: [PATCH 025/123] fix: CMshMesh::rebuildIndices lets entities added
 next continue the rebuilt indices

---
 trunk/src/mesh/MshMesh_Imp.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index 49e25ca..001d94a 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -757,6 +757,11 @@ namespace ENigMA
 
                 m_elementIndices[anElementId] = i;
             }
+
+            // Entities added next continue these indices
+            m_nodeIndex = static_cast<Integer>(m_nodeIds.size());
+            m_faceIndex = static_cast<Integer>(m_faceIds.size());
+            m_elementIndex = static_cast<Integer>(m_elementIds.size());
         }
 
         template <typename Real>
-- 
2.43.0


From d63ca03278afa755b6d1486097e94a2fa0e7c978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:46 +0000
Subject: [PATCH 026/123] fix: adding a mesh entity under an identifier in use
 replaces it instead of listing it twice

---
 trunk/src/mesh/MshMesh_Imp.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index 001d94a..1c69b88 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -104,7 +104,14 @@ namespace ENigMA
         template <typename Real>
         void CMshMesh<Real>::addNode(const Integer aNodeId, const ENigMA::mesh::CMshNode<Real>& aNode)
         {
+            // An identifier already in use keeps its position
+            bool bNew = m_nodes.find(aNodeId) == m_nodes.end();
+
             m_nodes[aNodeId] = aNode;
+
+            if (!bNew)
+                return;
+
             m_nodeIds.emplace_back(aNodeId);
 
             m_nodeIndices[aNodeId] = m_nodeIndex;
@@ -114,7 +121,14 @@ namespace ENigMA
         template <typename Real>
         void CMshMesh<Real>::addFace(const Integer aFaceId, const ENigMA::mesh::CMshFace<Real>& aFace)
         {
+            // An identifier already in use keeps its position
+            bool bNew = m_faces.find(aFaceId) == m_faces.end();
+
             m_faces[aFaceId] = aFace;
+
+            if (!bNew)
+                return;
+
             m_faceIds.emplace_back(aFaceId);
 
             m_faceIndices[aFaceId] = m_faceIndex;
@@ -124,7 +138,14 @@ namespace ENigMA
         template <typename Real>
         void CMshMesh<Real>::addElement(const Integer anElementId, const ENigMA::mesh::CMshElement<Real>& anElement)
         {
+            // An identifier already in use keeps its position
+            bool bNew = m_elements.find(anElementId) == m_elements.end();
+
             m_elements[anElementId] = anElement;
+
+            if (!bNew)
+                return;
+
             m_elementIds.emplace_back(anElementId);
 
             m_elementIndices[anElementId] = m_elementIndex;
-- 
2.43.0


From bbe182e5aed26a4e9e4dcf48dd0fd5f8b01e727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:07 +0000
Subject: [PATCH 027/123] fix: removing an unknown mesh entity leaves the mesh
 alone

---
 trunk/src/mesh/MshMesh_Imp.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index 1c69b88..2a8b5fc 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -155,7 +155,9 @@ namespace ENigMA
         template <typename Real>
         void CMshMesh<Real>::removeNode(const Integer aNodeId)
         {
-            m_nodes.erase(aNodeId);
+            if (m_nodes.erase(aNodeId) == 0)
+                return;
+
             m_nodeIndices.erase(aNodeId);
             m_nodeIds.erase(std::find(m_nodeIds.begin(), m_nodeIds.end(), aNodeId));
         }
@@ -163,7 +165,9 @@ namespace ENigMA
         template <typename Real>
         void CMshMesh<Real>::removeFace(const Integer aFaceId)
         {
-            m_faces.erase(aFaceId);
+            if (m_faces.erase(aFaceId) == 0)
+                return;
+
             m_faceIndices.erase(aFaceId);
             m_faceIds.erase(std::find(m_faceIds.begin(), m_faceIds.end(), aFaceId));
         }
@@ -171,7 +175,9 @@ namespace ENigMA
         template <typename Real>
         void CMshMesh<Real>::removeElement(const Integer anElementId)
         {
-            m_elements.erase(anElementId);
+            if (m_elements.erase(anElementId) == 0)
+                return;
+
             m_elementIndices.erase(anElementId);
             m_elementIds.erase(std::find(m_elementIds.begin(), m_elementIds.end(), anElementId));
         }
-- 
2.43.0


From 6b85ef95bb746f602c79e3764ba7cda86359fc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:27 +0000
Subject: [PATCH 028/123] fix: copies of a mesh keep its boundary count,
 spacings and centroids

---
 trunk/src/mesh/MshMesh_Imp.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index 2a8b5fc..bb59b37 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -60,6 +60,15 @@ namespace ENigMA
 
                 addElement(anElementId, anElement);
             }
+
+            m_nbBoundaryFaces = aMesh.m_nbBoundaryFaces;
+
+            m_dx = aMesh.m_dx;
+            m_dy = aMesh.m_dy;
+            m_dz = aMesh.m_dz;
+
+            m_faceCentroid = aMesh.m_faceCentroid;
+            m_elementCentroid = aMesh.m_elementCentroid;
         }
 
         template <typename Real>
-- 
2.43.0


From 9bcd58c7857a47c64ac30ff501bfe408e94eb6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:59 +0000
Subject: [PATCH 029/123] fix: faces of neighbouring elements are paired
 independently of rounding

---
 trunk/src/mesh/MshMesh_Imp.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index bb59b37..73ab947 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -313,10 +313,17 @@ namespace ENigMA
 
                 CGeoCoordinate<Real> aCenterCoordinate(0.0, 0.0, 0.0);
 
+                std::vector<Integer> sNodeIds;
+
                 for (Integer j = 0; j < m_faces.at(aFaceId).nbNodeIds(); ++j)
+                    sNodeIds.emplace_back(m_faces.at(aFaceId).nodeId(j));
+
+                // The sum must not depend on the order of the nodes, not even by rounding
+                std::sort(sNodeIds.begin(), sNodeIds.end());
+
+                for (Integer j = 0; j < static_cast<Integer>(sNodeIds.size()); ++j)
                 {
-                    Integer aNodeId = m_faces.at(aFaceId).nodeId(j);
-                    CMshNode<Real> aNode = m_nodes.at(aNodeId);
+                    CMshNode<Real> aNode = m_nodes.at(sNodeIds.at(j));
 
                     aCenterCoordinate += aNode;
                 }
-- 
2.43.0


From 79db232e5a0d94550e482946a66436a6c162ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:35 +0000
Subject: [PATCH 030/123] fix: CMshMesh::renumber renumbers the elements and
 pairs the faces refer to

---
 trunk/src/mesh/MshMesh_Imp.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index 73ab947..2025f6e 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -949,6 +949,7 @@ namespace ENigMA
                 sNewFaces[aNewFaceId] = aFace;
             }
 
+            mapElementIndex sNewElementIds;
             mapElement sNewElements;
 
             for (Integer i = 0; i < static_cast<Integer>(m_elementIds.size()); ++i)
@@ -966,6 +967,21 @@ namespace ENigMA
                     anElement.setFaceId(j, sNewFaceIds.at(anElement.faceId(j)));
 
                 sNewElements[aNewElementId] = anElement;
+                sNewElementIds[anOldElementId] = aNewElementId;
+            }
+
+            // Faces refer to their element and to the face of its neighbour
+            for (typename mapFace::iterator it = sNewFaces.begin(); it != sNewFaces.end(); ++it)
+            {
+                typename mapElementIndex::const_iterator ite = sNewElementIds.find(it->second.elementId());
+
+                if (ite != sNewElementIds.end())
+                    it->second.setElementId(ite->second);
+
+                typename mapFaceIndex::const_iterator itf = sNewFaceIds.find(it->second.pairFaceId());
+
+                if (it->second.hasPair() && itf != sNewFaceIds.end())
+                    it->second.setPairFaceId(itf->second);
             }
 
             Integer n = static_cast<Integer>(m_nodeIds.size());
-- 
2.43.0


From b814b0d38ec984509403721ae49c42010ce9fea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:03 +0000
Subject: [PATCH 031/123] fix: CMshMesh::addMesh renumbers the references
 between elements and faces

---
 trunk/src/mesh/MshMesh_Imp.hpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index 2025f6e..206a6ee 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -206,6 +206,8 @@ namespace ENigMA
                 sNewNodeIds[aNodeId] = aNewNodeId;
             }
 
+            mapFaceIndex sNewFaceIds;
+
             for (Integer i = 0; i < aMesh.nbFaces(); ++i)
             {
                 Integer aFaceId = aMesh.faceId(i);
@@ -213,6 +215,7 @@ namespace ENigMA
 
                 Integer aNewFaceId = nextFaceId();
                 addFace(aNewFaceId, aFace);
+                sNewFaceIds[aFaceId] = aNewFaceId;
                 CMshFace<Real>& aNewFace = face(aNewFaceId);
 
                 for (Integer j = 0; j < aNewFace.nbNodeIds(); ++j)
@@ -222,6 +225,8 @@ namespace ENigMA
                 }
             }
 
+            mapElementIndex sNewElementIds;
+
             for (Integer i = 0; i < aMesh.nbElements(); ++i)
             {
                 Integer anElementId = aMesh.elementId(i);
@@ -229,6 +234,7 @@ namespace ENigMA
 
                 Integer aNewElementId = nextElementId();
                 addElement(aNewElementId, anElement);
+                sNewElementIds[anElementId] = aNewElementId;
                 CMshElement<Real>& aNewElement = element(aNewElementId);
 
                 for (Integer j = 0; j < aNewElement.nbNodeIds(); ++j)
@@ -236,6 +242,30 @@ namespace ENigMA
                     Integer aNodeId = aNewElement.nodeId(j);
                     aNewElement.setNodeId(j, sNewNodeIds.at(aNodeId));
                 }
+
+                for (Integer j = 0; j < aNewElement.nbFaceIds(); ++j)
+                {
+                    typename mapFaceIndex::const_iterator itf = sNewFaceIds.find(aNewElement.faceId(j));
+
+                    if (itf != sNewFaceIds.end())
+                        aNewElement.setFaceId(j, itf->second);
+                }
+            }
+
+            // Faces refer to their element and to the face of its neighbour
+            for (typename mapFaceIndex::const_iterator it = sNewFaceIds.begin(); it != sNewFaceIds.end(); ++it)
+            {
+                CMshFace<Real>& aNewFace = face(it->second);
+
+                typename mapElementIndex::const_iterator ite = sNewElementIds.find(aNewFace.elementId());
+
+                if (ite != sNewElementIds.end())
+                    aNewFace.setElementId(ite->second);
+
+                typename mapFaceIndex::const_iterator itf = sNewFaceIds.find(aNewFace.pairFaceId());
+
+                if (aNewFace.hasPair() && itf != sNewFaceIds.end())
+                    aNewFace.setPairFaceId(itf->second);
             }
         }
 
-- 
2.43.0


From 6e9b0b8565de88cd34cf07e0a0223101c21d93b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:43 +0000
Subject: [PATCH 032/123] fix: CMshMesh::mergeNodes follows chains of merged
 nodes

---
 trunk/src/mesh/MshMesh_Imp.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index 206a6ee..6611915 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -636,6 +636,13 @@ namespace ENigMA
                 }
             }
 
+            // A node may have been replaced by one that was itself replaced afterwards
+            for (typename mapNodeIndex::iterator it = sNewNodeIds.begin(); it != sNewNodeIds.end(); ++it)
+            {
+                while (sNewNodeIds.at(it->second) != it->second)
+                    it->second = sNewNodeIds.at(it->second);
+            }
+
             // Renumber elements
             for (Integer i = 0; i < static_cast<Integer>(m_elementIds.size()); ++i)
             {
-- 
2.43.0


From c19463d2679e3200b295ac29aa4f4c91514f7f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:06 +0000
Subject: [PATCH 033/123] fix: inverting a mesh inverts its prisms and
 hexahedra

---
 trunk/src/mesh/MshElement_Imp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trunk/src/mesh/MshElement_Imp.hpp b/trunk/src/mesh/MshElement_Imp.hpp
index db91077..fb8079a 100644
--- a/trunk/src/mesh/MshElement_Imp.hpp
+++ b/trunk/src/mesh/MshElement_Imp.hpp
@@ -390,10 +390,12 @@ namespace ENigMA
                 m_nodeIds[2] = idAux;
                 break;
             case ET_TRIANGULAR_PRISM:
-                // TODO:
+                std::swap(m_nodeIds[1], m_nodeIds[2]);
+                std::swap(m_nodeIds[4], m_nodeIds[5]);
                 break;
             case ET_HEXAHEDRON:
-                // TODO:
+                std::swap(m_nodeIds[1], m_nodeIds[3]);
+                std::swap(m_nodeIds[5], m_nodeIds[7]);
                 break;
             case ET_POLYHEDRON:
                 // TODO:
-- 
2.43.0


From ba73ec9375fea01491a3f7e0d0628d93fedeecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:35 +0000
Subject: [PATCH 034/123] fix: box mesher lost a layer of cells when the side
 is a whole multiple of the mesh size up to rounding

---
 trunk/src/mesh/MshBasicMesher_Imp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/src/mesh/MshBasicMesher_Imp.hpp b/trunk/src/mesh/MshBasicMesher_Imp.hpp
index fea772a..f30ed89 100644
--- a/trunk/src/mesh/MshBasicMesher_Imp.hpp
+++ b/trunk/src/mesh/MshBasicMesher_Imp.hpp
@@ -363,9 +363,9 @@ namespace ENigMA
 
             Integer nu, nv, nw;
 
-            nu = static_cast<Integer>(aVectorU.norm() / meshSize);
-            nv = static_cast<Integer>(aVectorV.norm() / meshSize);
-            nw = static_cast<Integer>(aVectorW.norm() / meshSize);
+            nu = static_cast<Integer>(aVectorU.norm() / meshSize + 1E-6);
+            nv = static_cast<Integer>(aVectorV.norm() / meshSize + 1E-6);
+            nw = static_cast<Integer>(aVectorW.norm() / meshSize + 1E-6);
 
             m_mesh.reset();
 
-- 
2.43.0


From fef81ffa9e76292f17085410156467941d0556ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:51 +0000
Subject: [PATCH 035/123] fix: extruded hexahedra had their top nodes in the
 wrong order

---
 trunk/src/mesh/MshExtrudedMesher_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/mesh/MshExtrudedMesher_Imp.hpp b/trunk/src/mesh/MshExtrudedMesher_Imp.hpp
index 2cbd8ac..f35b21a 100644
--- a/trunk/src/mesh/MshExtrudedMesher_Imp.hpp
+++ b/trunk/src/mesh/MshExtrudedMesher_Imp.hpp
@@ -149,9 +149,9 @@ namespace ENigMA
                     aSolidElement.addNodeId(aNodeId3);
                     aSolidElement.addNodeId(aNodeId4);
                     aSolidElement.addNodeId(aNodeId5);
-                    aSolidElement.addNodeId(aNodeId8);
-                    aSolidElement.addNodeId(aNodeId7);
                     aSolidElement.addNodeId(aNodeId6);
+                    aSolidElement.addNodeId(aNodeId7);
+                    aSolidElement.addNodeId(aNodeId8);
 
                     m_mesh.addElement(m_mesh.nextElementId(), aSolidElement);
                 }
-- 
2.43.0


From daec545837b88db68453f2a3db04913eef43e4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:55 +0000
Subject: [PATCH 036/123] fix: elements sharing two nodes were missed when the
 elements are not stored in ascending order of identifiers

---
 trunk/src/mesh/MshMeshQuery_Imp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trunk/src/mesh/MshMeshQuery_Imp.hpp b/trunk/src/mesh/MshMeshQuery_Imp.hpp
index a548018..f2f9bed 100644
--- a/trunk/src/mesh/MshMeshQuery_Imp.hpp
+++ b/trunk/src/mesh/MshMeshQuery_Imp.hpp
@@ -37,6 +37,9 @@ namespace ENigMA
                         m_nodeToElement[aNodeId].emplace_back(anElementId);
                 }
             }
+
+            for (auto& anEntry : m_nodeToElement)
+                std::sort(anEntry.second.begin(), anEntry.second.end());
         }
 
         template <typename Real>
-- 
2.43.0


From a33baa8445f7ee9a8793714ef1d0b8d4f141def2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:26 +0000
Subject: [PATCH 037/123] fix: an element constructed from its type had no
 defined thickness

---
 trunk/src/mesh/MshElement_Imp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trunk/src/mesh/MshElement_Imp.hpp b/trunk/src/mesh/MshElement_Imp.hpp
index fb8079a..8d2e91e 100644
--- a/trunk/src/mesh/MshElement_Imp.hpp
+++ b/trunk/src/mesh/MshElement_Imp.hpp
@@ -32,6 +32,7 @@ namespace ENigMA
         template <typename Real>
         CMshElement<Real>::CMshElement(EElementType anElementType)
             : m_elementType(anElementType)
+            , m_thickness(1.0)
         {
         }
 
-- 
2.43.0


From 25f5617198798340afa27405dba4726280d9a02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:21 +0000
Subject: [PATCH 038/123] fix: indices of finite-volume faces were stale after
 a face was removed

---
 trunk/src/fvm/FvmMesh_Imp.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trunk/src/fvm/FvmMesh_Imp.hpp b/trunk/src/fvm/FvmMesh_Imp.hpp
index 0243f84..ef9cc96 100644
--- a/trunk/src/fvm/FvmMesh_Imp.hpp
+++ b/trunk/src/fvm/FvmMesh_Imp.hpp
@@ -205,6 +205,11 @@ namespace ENigMA
 
             if (it != m_faceIds.end())
                 m_faceIds.erase(it);
+
+            m_faceIndices.clear();
+
+            for (m_faceIndex = 0; m_faceIndex < static_cast<Integer>(m_faceIds.size()); ++m_faceIndex)
+                m_faceIndices[m_faceIds[m_faceIndex]] = m_faceIndex;
         }
 
         template <typename Real>
-- 
2.43.0


From e2aed057c9aee9295500c3017bbd6145050e4bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:36 +0000
Subject: [PATCH 039/123] fix: adding a finite-volume face or cell under an
 identifier in use listed it twice

---
 trunk/src/fvm/FvmMesh_Imp.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trunk/src/fvm/FvmMesh_Imp.hpp b/trunk/src/fvm/FvmMesh_Imp.hpp
index ef9cc96..9238039 100644
--- a/trunk/src/fvm/FvmMesh_Imp.hpp
+++ b/trunk/src/fvm/FvmMesh_Imp.hpp
@@ -183,6 +183,12 @@ namespace ENigMA
         template <typename Real>
         void CFvmMesh<Real>::addFace(const Integer aFaceId, const CFvmFace<Real>& aFace)
         {
+            if (m_faces.find(aFaceId) != m_faces.end())
+            {
+                m_faces[aFaceId] = aFace;
+                return;
+            }
+
             m_faces[aFaceId] = aFace;
             m_faceIds.emplace_back(aFaceId);
 
@@ -215,6 +221,12 @@ namespace ENigMA
         template <typename Real>
         void CFvmMesh<Real>::addControlVolume(const Integer aControlVolumeId, const CFvmControlVolume<Real>& aControlVolume)
         {
+            if (m_controlVolumes.find(aControlVolumeId) != m_controlVolumes.end())
+            {
+                m_controlVolumes[aControlVolumeId] = aControlVolume;
+                return;
+            }
+
             m_controlVolumes[aControlVolumeId] = aControlVolume;
             m_controlVolumeIds.emplace_back(aControlVolumeId);
 
-- 
2.43.0


From de91662ccc8d34fbf686af43fa792203101a9b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 040/123] fix: scaling the rows of a symmetric system still
 declared it symmetric

---
 trunk/src/sle/SleSystem_Imp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trunk/src/sle/SleSystem_Imp.hpp b/trunk/src/sle/SleSystem_Imp.hpp
index 32e2d23..7ebd67c 100644
--- a/trunk/src/sle/SleSystem_Imp.hpp
+++ b/trunk/src/sle/SleSystem_Imp.hpp
@@ -185,7 +185,8 @@ namespace ENigMA
         {
             CSleSystem<Real> aSystem;
 
-            aSystem.matrixType = right.matrixType;
+            // Scaling the rows of a symmetric matrix does not keep it symmetric
+            aSystem.matrixType = right.matrixType == MT_SPARSE_SYMMETRIC ? MT_SPARSE : right.matrixType;
 
             aSystem.matrixA = right.matrixA;
             for (int k = 0; k < aSystem.matrixA.outerSize(); ++k)
-- 
2.43.0


From 9c0dd4ec29ad2d2f50f0cdf2239613562a6afd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 041/123] fix: a breakdown of the iterative solver returned a
 vector that does not solve the system

---
 trunk/src/sle/SleSystem_Imp.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/trunk/src/sle/SleSystem_Imp.hpp b/trunk/src/sle/SleSystem_Imp.hpp
index 7ebd67c..21e1229 100644
--- a/trunk/src/sle/SleSystem_Imp.hpp
+++ b/trunk/src/sle/SleSystem_Imp.hpp
@@ -71,6 +71,24 @@ namespace ENigMA
                 solver.compute(matrixA);
                 x = solver.solve(vectorB);
 
+                // After a breakdown the solver may report success for a vector that is no solution: use elimination
+                const Real tolerance = std::sqrt(solver.tolerance()) * vectorB.norm();
+
+                if (!((vectorB - matrixA * x).norm() <= tolerance))
+                {
+                    Eigen::SparseLU<Eigen::SparseMatrix<Real, Eigen::ColMajor>, Eigen::COLAMDOrdering<Integer>> directSolver;
+
+                    directSolver.compute(matrixA);
+
+                    if (directSolver.info() == Eigen::Success)
+                    {
+                        Eigen::Matrix<Real, Eigen::Dynamic, 1> y = directSolver.solve(vectorB);
+
+                        if ((vectorB - matrixA * y).norm() <= tolerance)
+                            x = y;
+                    }
+                }
+
 #endif
             }
             else if (matrixType == MT_DENSE)
-- 
2.43.0


From 6994bbf4140bab22d360674335410968e93925a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 042/123] fix: finite-element time derivatives took element
 indices for identifiers and node identifiers for indices

---
 trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp      |  6 +++---
 .../src/pde/fem/generic/FemGenericOperators_Imp.hpp  | 12 ++++++------
 .../src/pde/fem/thermal/FemThermalOperators_Imp.hpp  | 12 ++++++------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp b/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp
index 5060b80..7105524 100644
--- a/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp
+++ b/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp
@@ -37,7 +37,7 @@ namespace ENigMA
 
                     for (Integer el = 0; el < aField.mesh().nbElements(); el++)
                     {
-                        CMshElement<Real> anElement = aField.mesh().element(el);
+                        CMshElement<Real> anElement = aField.mesh().element(aField.mesh().elementId(el));
 
                         if (anElement.elementType() == ET_BEAM && anElement.nbNodeIds() == 2)
                         {
@@ -67,7 +67,7 @@ namespace ENigMA
                                         += aTriangle.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTriangle.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangle.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_QUADRILATERAL && anElement.nbNodeIds() == 4)
@@ -98,7 +98,7 @@ namespace ENigMA
                                         += aTetrahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTetrahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
diff --git a/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp b/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
index 070ac9e..89e5c2b 100644
--- a/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
+++ b/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
@@ -40,7 +40,7 @@ namespace ENigMA
 
                     for (Integer el = 0; el < aField.mesh().nbElements(); el++)
                     {
-                        CMshElement<Real> anElement = aField.mesh().element(el);
+                        CMshElement<Real> anElement = aField.mesh().element(aField.mesh().elementId(el));
 
                         if (anElement.elementType() == ET_BEAM && anElement.nbNodeIds() == 2)
                         {
@@ -68,7 +68,7 @@ namespace ENigMA
                                         += aBeam.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aBeam.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aBeam.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_TRIANGLE && anElement.nbNodeIds() == 3)
@@ -97,7 +97,7 @@ namespace ENigMA
                                         += aTriangle.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTriangle.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangle.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_QUADRILATERAL && anElement.nbNodeIds() == 4)
@@ -126,7 +126,7 @@ namespace ENigMA
                                         += aQuadrilateral.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aQuadrilateral.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aQuadrilateral.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_TETRAHEDRON && anElement.nbNodeIds() == 4)
@@ -155,7 +155,7 @@ namespace ENigMA
                                         += aTetrahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTetrahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
@@ -184,7 +184,7 @@ namespace ENigMA
                                         += aHexahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aHexahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aHexahedron.source(i);
                             }
                         }
                     }
diff --git a/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp b/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
index 4c2ee26..5e82bef 100644
--- a/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
+++ b/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
@@ -40,7 +40,7 @@ namespace ENigMA
 
                     for (Integer el = 0; el < aField.mesh().nbElements(); el++)
                     {
-                        CMshElement<Real> anElement = aField.mesh().element(el);
+                        CMshElement<Real> anElement = aField.mesh().element(aField.mesh().elementId(el));
 
                         if (anElement.elementType() == ET_BEAM && anElement.nbNodeIds() == 2)
                         {
@@ -68,7 +68,7 @@ namespace ENigMA
                                         += aBeam.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aBeam.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aBeam.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_TRIANGLE && anElement.nbNodeIds() == 3)
@@ -97,7 +97,7 @@ namespace ENigMA
                                         += aTriangle.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTriangle.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangle.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_QUADRILATERAL && anElement.nbNodeIds() == 4)
@@ -126,7 +126,7 @@ namespace ENigMA
                                         += aQuadrilateral.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aQuadrilateral.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aQuadrilateral.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_TETRAHEDRON && anElement.nbNodeIds() == 4)
@@ -155,7 +155,7 @@ namespace ENigMA
                                         += aTetrahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTetrahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
@@ -184,7 +184,7 @@ namespace ENigMA
                                         += aHexahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aHexahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aHexahedron.source(i);
                             }
                         }
                     }
-- 
2.43.0


From 104feed52758a42a852dd9353d51b42a57ac6b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 043/123] fix: sources set after elimination were added to the
 wrong equations or out of range

---
 trunk/src/pde/PdeEquation_Imp.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/trunk/src/pde/PdeEquation_Imp.hpp b/trunk/src/pde/PdeEquation_Imp.hpp
index fbce01c..7e64817 100644
--- a/trunk/src/pde/PdeEquation_Imp.hpp
+++ b/trunk/src/pde/PdeEquation_Imp.hpp
@@ -9,6 +9,8 @@
 
 #pragma once
 
+#include <algorithm>
+
 #include "bem/BemOperators.hpp"
 #include "fdm/FdmOperators.hpp"
 #include "fem/FemOperators.hpp"
@@ -129,6 +131,15 @@ namespace ENigMA
                 Integer anIndex = itr->first;
                 Real aValue = itr->second;
 
+                if (m_eliminationMethod)
+                {
+                    // Rows of fixed values are gone, the others have moved up
+                    if (m_bDeleteIndex[anIndex])
+                        continue;
+
+                    anIndex -= static_cast<Integer>(std::count(m_bDeleteIndex.begin(), m_bDeleteIndex.begin() + anIndex, true));
+                }
+
                 m_system.vectorB(anIndex) += aValue;
             }
         }
-- 
2.43.0


From e26bd4bb0a3645b85c0c877983c1fa429459269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 044/123] fix: the three-point rule on the line had its weights
 at the wrong points

---
 trunk/src/integration/IntBeam_Imp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/src/integration/IntBeam_Imp.hpp b/trunk/src/integration/IntBeam_Imp.hpp
index 0525147..00209dc 100644
--- a/trunk/src/integration/IntBeam_Imp.hpp
+++ b/trunk/src/integration/IntBeam_Imp.hpp
@@ -50,11 +50,11 @@ namespace ENigMA
             case 3:
 
                 m_xi[0] = +0.0000000000;
-                m_wxi[0] = +0.8888888888;
+                m_wxi[0] = +0.8888888889;
                 m_xi[1] = -0.7745966692;
-                m_wxi[0] = +0.5555555555;
+                m_wxi[1] = +0.5555555556;
                 m_xi[2] = +0.7745966692;
-                m_wxi[1] = +0.5555555555;
+                m_wxi[2] = +0.5555555556;
                 break;
 
             case 4:
-- 
2.43.0


From 46aa4ee8ba09433cbc8c5057c8fb63b3a135edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 045/123] fix: triangle rules of 1, 3 and 7 points had weights
 not adding up to the reference area

---
 trunk/src/integration/IntTriangle_Imp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/src/integration/IntTriangle_Imp.hpp b/trunk/src/integration/IntTriangle_Imp.hpp
index 5bc02f6..b530f13 100644
--- a/trunk/src/integration/IntTriangle_Imp.hpp
+++ b/trunk/src/integration/IntTriangle_Imp.hpp
@@ -48,7 +48,7 @@ namespace ENigMA
                 const Real o1beta1[1] = { 3.33333333333333e-001 };
                 const Real o1beta2[1] = { 3.33333333333333e-001 };
                 const Real o1beta3[1] = { 3.33333333333333e-001 };
-                const Real o1wbeta[1] = { 1.0 };
+                const Real o1wbeta[1] = { 0.5 };
 
                 for (Integer k = 0; k < CIntGaussIntegration<Real>::m_integPoints; ++k)
                 {
@@ -66,7 +66,7 @@ namespace ENigMA
                 const Real o3beta1[3] = { 0.5, 0.0, 0.5 };
                 const Real o3beta2[3] = { 0.0, 0.5, 0.5 };
                 const Real o3beta3[3] = { 0.5, 0.5, 0.0 };
-                const Real o3wbeta[3] = { 1.0, 1.0, 1.0 };
+                const Real o3wbeta[3] = { 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0 };
 
                 for (Integer k = 0; k < CIntGaussIntegration<Real>::m_integPoints; ++k)
                 {
@@ -103,7 +103,7 @@ namespace ENigMA
                 const Real o7beta1[7] = { 3.33333333333333e-001, 1.01286507323457e-001, 1.01286507323457e-001, 7.97426985353088e-001, 4.70142064105115e-001, 4.70142064105115e-001, 5.97158717897699e-002 };
                 const Real o7beta2[7] = { 3.33333333333333e-001, 1.01286507323456e-001, 7.97426985353087e-001, 1.01286507323456e-001, 5.97158717897700e-002, 4.70142064105115e-001, 4.70142064105115e-001 };
                 const Real o7beta3[7] = { 3.33333333333333e-001, 7.97426985353087e-001, 1.01286507323456e-001, 1.01286507323456e-001, 4.70142064105115e-001, 5.97158717897700e-002, 4.70142064105115e-001 };
-                const Real o7wbeta[7] = { 1.12515000150000e-001, 6.29695902724135e-002, 6.29695902724135e-002, 6.29695902724135e-002, 6.61970763942530e-002, 6.61970763942530e-002, 6.61970763942530e-002 };
+                const Real o7wbeta[7] = { 1.12500000000000e-001, 6.29695902724135e-002, 6.29695902724135e-002, 6.29695902724135e-002, 6.61970763942530e-002, 6.61970763942530e-002, 6.61970763942530e-002 };
 
                 for (Integer k = 0; k < CIntGaussIntegration<Real>::m_integPoints; ++k)
                 {
-- 
2.43.0


From 3afbed826c0e95ec7d4e066e96e2fbd012e3aa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 046/123] fix: the eight-point quadrilateral rule repeated a
 point and lost the constant

---
 .../src/integration/IntQuadrilateral_Imp.hpp  | 57 +++++++++----------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/trunk/src/integration/IntQuadrilateral_Imp.hpp b/trunk/src/integration/IntQuadrilateral_Imp.hpp
index 11a9a9d..45ee8d2 100644
--- a/trunk/src/integration/IntQuadrilateral_Imp.hpp
+++ b/trunk/src/integration/IntQuadrilateral_Imp.hpp
@@ -65,39 +65,38 @@ namespace ENigMA
 
             case 8:
 
-                // TODO: CHECK THIS!
-                m_xi[0] = -0.7745966692;
-                m_eta[0] = -0.7745966692;
-                m_wxi[0] = 0.5555555556;
-                m_weta[0] = 0.5555555556;
-                m_xi[1] = +0.7745966692;
-                m_eta[1] = -0.7745966692;
-                m_wxi[1] = 0.5555555556;
-                m_weta[1] = 0.5555555556;
-                m_xi[2] = -0.7745966692;
-                m_eta[2] = +0.7745966692;
-                m_wxi[2] = 0.5555555556;
-                m_weta[2] = 0.5555555556;
-                m_xi[3] = +0.7745966692;
-                m_eta[3] = +0.7745966692;
-                m_wxi[3] = 0.5555555556;
-                m_weta[3] = 0.5555555556;
-                m_xi[4] = -0.7745966692;
+                m_xi[0] = -0.8819171037;
+                m_eta[0] = -0.8819171037;
+                m_wxi[0] = 0.1836734694;
+                m_weta[0] = 1.0;
+                m_xi[1] = +0.8819171037;
+                m_eta[1] = -0.8819171037;
+                m_wxi[1] = 0.1836734694;
+                m_weta[1] = 1.0;
+                m_xi[2] = -0.8819171037;
+                m_eta[2] = +0.8819171037;
+                m_wxi[2] = 0.1836734694;
+                m_weta[2] = 1.0;
+                m_xi[3] = +0.8819171037;
+                m_eta[3] = +0.8819171037;
+                m_wxi[3] = 0.1836734694;
+                m_weta[3] = 1.0;
+                m_xi[4] = -0.6831300511;
                 m_eta[4] = +0.0000000000;
-                m_wxi[4] = 0.5555555556;
-                m_weta[4] = 0.8888888889;
-                m_xi[5] = +0.7745966692;
+                m_wxi[4] = 0.8163265306;
+                m_weta[4] = 1.0;
+                m_xi[5] = +0.6831300511;
                 m_eta[5] = +0.0000000000;
-                m_wxi[5] = 0.5555555556;
-                m_weta[5] = 0.8888888889;
+                m_wxi[5] = 0.8163265306;
+                m_weta[5] = 1.0;
                 m_xi[6] = +0.0000000000;
-                m_eta[6] = -0.7745966692;
-                m_wxi[6] = 0.8888888889;
-                m_weta[6] = 0.5555555556;
+                m_eta[6] = -0.6831300511;
+                m_wxi[6] = 0.8163265306;
+                m_weta[6] = 1.0;
                 m_xi[7] = +0.0000000000;
-                m_eta[7] = -0.7745966692;
-                m_wxi[7] = 0.8888888889;
-                m_weta[7] = 0.5555555556;
+                m_eta[7] = +0.6831300511;
+                m_wxi[7] = 0.8163265306;
+                m_weta[7] = 1.0;
                 break;
             }
         }
-- 
2.43.0


From 86e876021ac715455b9a1107a61d82e7aa64726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:33 +0000
Subject: [PATCH 047/123] fix: the 27-point hexahedron rule repeated three
 points

---
 trunk/src/integration/IntHexahedron_Imp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/src/integration/IntHexahedron_Imp.hpp b/trunk/src/integration/IntHexahedron_Imp.hpp
index 0613272..2368e84 100644
--- a/trunk/src/integration/IntHexahedron_Imp.hpp
+++ b/trunk/src/integration/IntHexahedron_Imp.hpp
@@ -144,7 +144,7 @@ namespace ENigMA
                 m_weta[6] = 0.5555555556;
                 m_wzeta[6] = 0.5555555556;
                 m_xi[7] = +0.0000000000;
-                m_eta[7] = -0.7745966692;
+                m_eta[7] = +0.7745966692;
                 m_zeta[7] = -0.7745966692;
                 m_wxi[7] = 0.8888888889;
                 m_weta[7] = 0.5555555556;
@@ -198,7 +198,7 @@ namespace ENigMA
                 m_weta[15] = 0.5555555556;
                 m_wzeta[15] = 0.5555555556;
                 m_xi[16] = +0.0000000000;
-                m_eta[16] = -0.7745966692;
+                m_eta[16] = +0.7745966692;
                 m_zeta[16] = +0.7745966692;
                 m_wxi[16] = 0.8888888889;
                 m_weta[16] = 0.5555555556;
@@ -252,7 +252,7 @@ namespace ENigMA
                 m_weta[24] = 0.5555555556;
                 m_wzeta[24] = 0.8888888889;
                 m_xi[25] = +0.0000000000;
-                m_eta[25] = -0.7745966692;
+                m_eta[25] = +0.7745966692;
                 m_zeta[25] = +0.0000000000;
                 m_wxi[25] = 0.8888888889;
                 m_weta[25] = 0.5555555556;
-- 
2.43.0


From 3ad507064315f5bfb9a0666f28731fa19b297a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 048/123] fix: the triangular prism rules of 1 and 9 points had
 wrong points and weights

---
 .../integration/IntTriangularPrism_Imp.hpp    | 74 +++++++++----------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/trunk/src/integration/IntTriangularPrism_Imp.hpp b/trunk/src/integration/IntTriangularPrism_Imp.hpp
index 9f81f86..7b4da23 100644
--- a/trunk/src/integration/IntTriangularPrism_Imp.hpp
+++ b/trunk/src/integration/IntTriangularPrism_Imp.hpp
@@ -36,11 +36,11 @@ namespace ENigMA
             {
             case 1:
 
-                m_xi[0] = 0.0;
-                m_eta[0] = 0.0;
+                m_xi[0] = 1.0 / 3.0;
+                m_eta[0] = 1.0 / 3.0;
                 m_zeta[0] = 0.0;
-                m_wxi[0] = 2.0;
-                m_weta[0] = 2.0;
+                m_wxi[0] = 1.0;
+                m_weta[0] = 0.5;
                 m_wzeta[0] = 2.0;
                 break;
 
@@ -89,57 +89,57 @@ namespace ENigMA
                 m_xi[0] = 1.0 / 6.0;
                 m_eta[0] = 1.0 / 6.0;
                 m_zeta[0] = -sqrt(3.0) / sqrt(5.0);
-                m_wxi[0] = 5.0 / 18.0;
-                m_weta[0] = 5.0 / 18.0;
-                m_wzeta[0] = 5.0 / 18.0;
-                m_xi[1] = 1.0 / 3.0;
+                m_wxi[0] = 1.0 / 3.0;
+                m_weta[0] = 0.5;
+                m_wzeta[0] = 5.0 / 9.0;
+                m_xi[1] = 2.0 / 3.0;
                 m_eta[1] = 1.0 / 6.0;
                 m_zeta[1] = -sqrt(3.0) / sqrt(5.0);
-                m_wxi[1] = 5.0 / 18.0;
-                m_weta[1] = 5.0 / 18.0;
-                m_wzeta[1] = 5.0 / 18.0;
+                m_wxi[1] = 1.0 / 3.0;
+                m_weta[1] = 0.5;
+                m_wzeta[1] = 5.0 / 9.0;
                 m_xi[2] = 1.0 / 6.0;
-                m_eta[2] = 1.0 / 3.0;
+                m_eta[2] = 2.0 / 3.0;
                 m_zeta[2] = -sqrt(3.0) / sqrt(5.0);
-                m_wxi[2] = 5.0 / 18.0;
-                m_weta[2] = 5.0 / 18.0;
-                m_wzeta[2] = 5.0 / 18.0;
+                m_wxi[2] = 1.0 / 3.0;
+                m_weta[2] = 0.5;
+                m_wzeta[2] = 5.0 / 9.0;
                 m_xi[3] = 1.0 / 6.0;
                 m_eta[3] = 1.0 / 6.0;
                 m_zeta[3] = 0.0;
-                m_wxi[3] = 8.0 / 18.0;
-                m_weta[3] = 8.0 / 18.0;
-                m_wzeta[3] = 8.0 / 18.0;
-                m_xi[4] = 1.0 / 3.0;
+                m_wxi[3] = 1.0 / 3.0;
+                m_weta[3] = 0.5;
+                m_wzeta[3] = 8.0 / 9.0;
+                m_xi[4] = 2.0 / 3.0;
                 m_eta[4] = 1.0 / 6.0;
                 m_zeta[4] = 0.0;
-                m_wxi[4] = 8.0 / 18.0;
-                m_weta[4] = 8.0 / 18.0;
-                m_wzeta[4] = 8.0 / 18.0;
+                m_wxi[4] = 1.0 / 3.0;
+                m_weta[4] = 0.5;
+                m_wzeta[4] = 8.0 / 9.0;
                 m_xi[5] = 1.0 / 6.0;
-                m_eta[5] = 1.0 / 3.0;
+                m_eta[5] = 2.0 / 3.0;
                 m_zeta[5] = 0.0;
-                m_wxi[5] = 8.0 / 18.0;
-                m_weta[5] = 8.0 / 18.0;
-                m_wzeta[5] = 8.0 / 18.0;
+                m_wxi[5] = 1.0 / 3.0;
+                m_weta[5] = 0.5;
+                m_wzeta[5] = 8.0 / 9.0;
                 m_xi[6] = 1.0 / 6.0;
                 m_eta[6] = 1.0 / 6.0;
                 m_zeta[6] = +sqrt(3.0) / sqrt(5.0);
-                m_wxi[6] = 5.0 / 18.0;
-                m_weta[6] = 5.0 / 18.0;
-                m_wzeta[6] = 5.0 / 18.0;
-                m_xi[7] = 1.0 / 3.0;
+                m_wxi[6] = 1.0 / 3.0;
+                m_weta[6] = 0.5;
+                m_wzeta[6] = 5.0 / 9.0;
+                m_xi[7] = 2.0 / 3.0;
                 m_eta[7] = 1.0 / 6.0;
                 m_zeta[7] = +sqrt(3.0) / sqrt(5.0);
-                m_wxi[7] = 5.0 / 18.0;
-                m_weta[7] = 5.0 / 18.0;
-                m_wzeta[7] = 5.0 / 18.0;
+                m_wxi[7] = 1.0 / 3.0;
+                m_weta[7] = 0.5;
+                m_wzeta[7] = 5.0 / 9.0;
                 m_xi[8] = 1.0 / 6.0;
-                m_eta[8] = 1.0 / 3.0;
+                m_eta[8] = 2.0 / 3.0;
                 m_zeta[8] = +sqrt(3.0) / sqrt(5.0);
-                m_wxi[8] = 5.0 / 18.0;
-                m_weta[8] = 5.0 / 18.0;
-                m_wzeta[8] = 5.0 / 18.0;
+                m_wxi[8] = 1.0 / 3.0;
+                m_weta[8] = 0.5;
+                m_wzeta[8] = 5.0 / 9.0;
                 break;
             }
         }
-- 
2.43.0


From daa6c9c69831b232f2b196f23c7b65155bad9168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 049/123] fix: triangular prisms were left out of the time
 derivative and the source, leaving their equations singular

---
 .../fem/generic/FemGenericOperators_Imp.hpp   | 53 +++++++++++++++++++
 .../fem/thermal/FemThermalOperators_Imp.hpp   | 29 ++++++++++
 2 files changed, 82 insertions(+)

diff --git a/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp b/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
index 89e5c2b..f998aa4 100644
--- a/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
+++ b/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
@@ -158,6 +158,35 @@ namespace ENigMA
                                 aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
+                        else if (anElement.elementType() == ET_TRIANGULAR_PRISM && anElement.nbNodeIds() == 6)
+                        {
+                            CFemTriangularPrism<Real, 6, 1, 1> aTriangularPrism;
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                CGeoCoordinate<Real> aVertex(aField.mesh().node(anElement.nodeId(i)));
+                                aTriangularPrism.addVertex(aVertex);
+                            }
+
+                            aTriangularPrism.calculateVolume();
+
+                            aTriangularPrism.setTransient(true);
+
+                            aTriangularPrism.update();
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                for (Integer j = 0; j < anElement.nbNodeIds(); ++j)
+                                {
+                                    aSystem.matrixA.coeffRef(
+                                        aField.mesh().nodeIndex(anElement.nodeId(i)),
+                                        aField.mesh().nodeIndex(anElement.nodeId(j)))
+                                        += aTriangularPrism.ddt(i, j);
+                                }
+
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangularPrism.source(i);
+                            }
+                        }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
                         {
                             CFemHexahedron<Real, 8, 1, 1> aHexahedron;
@@ -613,6 +642,30 @@ namespace ENigMA
                                 aVectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
+                        else if (anElement.elementType() == ET_TRIANGULAR_PRISM && anElement.nbNodeIds() == 6)
+                        {
+                            CFemTriangularPrism<Real, 6, 1, 1> aTriangularPrism;
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                CGeoCoordinate<Real> aVertex(aField.mesh().node(anElement.nodeId(i)));
+                                aTriangularPrism.addVertex(aVertex);
+                            }
+
+                            aTriangularPrism.calculateVolume();
+
+                            aTriangularPrism.setTransient(false);
+
+                            aTriangularPrism.update();
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                                aTriangularPrism.setSourceOnNode(i, aSource);
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                aVectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangularPrism.source(i);
+                            }
+                        }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
                         {
                             CFemHexahedron<Real, 8, 1, 1> aHexahedron;
diff --git a/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp b/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
index 5e82bef..5a5aeef 100644
--- a/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
+++ b/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
@@ -158,6 +158,35 @@ namespace ENigMA
                                 aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
+                        else if (anElement.elementType() == ET_TRIANGULAR_PRISM && anElement.nbNodeIds() == 6)
+                        {
+                            CFemLinearTemperatureTriangularPrism<Real, 6, 1, 1> aTriangularPrism;
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                CGeoCoordinate<Real> aVertex(aField.mesh().node(anElement.nodeId(i)));
+                                aTriangularPrism.addVertex(aVertex);
+                            }
+
+                            aTriangularPrism.calculateVolume();
+
+                            aTriangularPrism.setTransient(true);
+
+                            aTriangularPrism.update();
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                for (Integer j = 0; j < anElement.nbNodeIds(); ++j)
+                                {
+                                    aSystem.matrixA.coeffRef(
+                                        aField.mesh().nodeIndex(anElement.nodeId(i)),
+                                        aField.mesh().nodeIndex(anElement.nodeId(j)))
+                                        += aTriangularPrism.ddt(i, j);
+                                }
+
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangularPrism.source(i);
+                            }
+                        }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
                         {
                             CFemLinearTemperatureHexahedron<Real, 8, 1, 1> aHexahedron;
-- 
2.43.0


From 51ea4b3bf44744f4532faf91d4f0c4a7d38903ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 050/123] fix: finite-volume time derivative took the boundary
 value for the old value of cells at the boundary

---
 .../fvm/generic/FvmGenericOperators_Imp.hpp   | 20 +------------------
 .../fvm/thermal/FvmThermalOperators_Imp.hpp   | 20 +------------------
 2 files changed, 2 insertions(+), 38 deletions(-)

diff --git a/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp b/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp
index caa7534..e654d8b 100644
--- a/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp
+++ b/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp
@@ -38,26 +38,8 @@ namespace ENigMA
 
                         CMshElement<Real> anElement = aField.mesh().element(anElementId);
 
-                        Real value = aField.u[el];
-                        for (Integer i = 0; i < anElement.nbFaceIds(); ++i)
-                        {
-                            Integer aFaceId = anElement.faceId(i);
-
-                            // Check if it has boundary condition
-                            if (aField.faceHasBC(aFaceId))
-                            {
-                                CPdeBoundaryCondition<Real> aCondition = aField.faceBC(aFaceId);
-                                if (aCondition.boundaryConditionType() == BT_GENERIC_FIXED_VALUE)
-                                {
-                                    value = aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
-                                    break;
-                                }
-                            }
-
-                        }
-
                         aSystem.matrixA.coeffRef(el, el) += 1.0;
-                        aSystem.vectorB[el] += value;
+                        aSystem.vectorB[el] += aField.u[el];
                     }
 
                     aSystem.matrixA.finalize();
diff --git a/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp b/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp
index e348b10..fd1ee72 100644
--- a/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp
+++ b/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp
@@ -34,26 +34,8 @@ namespace ENigMA
 
                         CMshElement<Real> anElement = aField.mesh().element(anElementId);
 
-                        Real value = aField.u[el];
-                        for (Integer i = 0; i < anElement.nbFaceIds(); ++i)
-                        {
-                            Integer aFaceId = anElement.faceId(i);
-
-                            // Check if it has boundary condition
-                            if (aField.faceHasBC(aFaceId))
-                            {
-                                CPdeBoundaryCondition<Real> aCondition = aField.faceBC(aFaceId);
-                                if (aCondition.boundaryConditionType() == BT_GENERIC_FIXED_VALUE)
-                                {
-                                    value = aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
-                                    break;
-                                }
-                            }
-
-                        }
-
                         aSystem.matrixA.coeffRef(el, el) += 1.0;
-                        aSystem.vectorB[el] += value;
+                        aSystem.vectorB[el] += aField.u[el];
                     }
 
                     aSystem.matrixA.finalize();
-- 
2.43.0


From 559e54bbbc3b3792543c339d2f2bc404cb95c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 051/123] fix: fixed values entered the finite-volume
 divergence with the wrong sign

---
 trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp       | 2 +-
 trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp | 2 +-
 trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp b/trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp
index c52c828..5415076 100644
--- a/trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp
+++ b/trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp
@@ -207,7 +207,7 @@ namespace ENigMA
 
                                     if (aCondition.boundaryConditionType() == BT_GENERIC_FIXED_VALUE)
                                     {
-                                        aSystem.vectorB[el] += Af / Vp * (nf.x() + nf.y() + nf.z()) * aField.u[el] * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
+                                        aSystem.vectorB[el] -= Af / Vp * (nf.x() + nf.y() + nf.z()) * aField.u[el] * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
                                     }
                                 }
                             }
diff --git a/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp b/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp
index e654d8b..f3bb6f8 100644
--- a/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp
+++ b/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp
@@ -197,7 +197,7 @@ namespace ENigMA
 
                                     if (aCondition.boundaryConditionType() == BT_GENERIC_FIXED_VALUE)
                                     {
-                                        aSystem.vectorB[el] += Af / Vp * (nf.x() + nf.y() + nf.z()) * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
+                                        aSystem.vectorB[el] -= Af / Vp * (nf.x() + nf.y() + nf.z()) * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
                                     }
                                 }
                             }
diff --git a/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp b/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp
index fd1ee72..577779f 100644
--- a/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp
+++ b/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp
@@ -193,7 +193,7 @@ namespace ENigMA
 
                                     if (aCondition.boundaryConditionType() == BT_GENERIC_FIXED_VALUE)
                                     {
-                                        aSystem.vectorB[el] += Af / Vp * (nf.x() + nf.y() + nf.z()) * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
+                                        aSystem.vectorB[el] -= Af / Vp * (nf.x() + nf.y() + nf.z()) * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
                                     }
                                 }
                             }
-- 
2.43.0


From 12b7129adf04b3785975112dff798c4527884c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 052/123] fix: capacity matrix of quadrilaterals took the
 Jacobian at mirrored integration points (wrong for non-parallelograms)

---
 trunk/src/fem/FemQuadrilateral_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/fem/FemQuadrilateral_Imp.hpp b/trunk/src/fem/FemQuadrilateral_Imp.hpp
index 38f2eb7..feff54c 100644
--- a/trunk/src/fem/FemQuadrilateral_Imp.hpp
+++ b/trunk/src/fem/FemQuadrilateral_Imp.hpp
@@ -115,8 +115,8 @@ namespace ENigMA
 
                 J.resize(2, 2);
 
-                J << -xim * m_x1 + xim * m_x2 + xip * m_x3 - xip * m_x4, -xim * m_y1 + xim * m_y2 + xip * m_y3 - xip * m_y4,
-                    -etam * m_x1 - etap * m_x2 + etap * m_x3 + etam * m_x4, -etam * m_y1 - etap * m_y2 + etap * m_y3 + etam * m_y4;
+                J << -etam * m_x1 + etam * m_x2 + etap * m_x3 - etap * m_x4, -etam * m_y1 + etam * m_y2 + etap * m_y3 - etap * m_y4,
+                    -xim * m_x1 - xip * m_x2 + xip * m_x3 + xim * m_x4, -xim * m_y1 - xip * m_y2 + xip * m_y3 + xim * m_y4;
 
                 J *= 0.25;
 
-- 
2.43.0


From 2c1325627843dab98c22c065c7021fabbf612099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 053/123] fix: triangles left their thickness out of the
 capacity, convection and gradient matrices but not of the diffusion matrix

---
 trunk/src/fem/FemTriangle_Imp.hpp               | 2 +-
 trunk/src/fem/flow/FemFlowTriangle_Imp.hpp      | 5 +++--
 trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp | 2 ++
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/trunk/src/fem/FemTriangle_Imp.hpp b/trunk/src/fem/FemTriangle_Imp.hpp
index 1dcd83f..ab5ca1f 100644
--- a/trunk/src/fem/FemTriangle_Imp.hpp
+++ b/trunk/src/fem/FemTriangle_Imp.hpp
@@ -89,7 +89,7 @@ namespace ENigMA
                 1.0 / 12.0, 1.0 / 6.0, 1.0 / 12.0,
                 1.0 / 12.0, 1.0 / 12.0, 1.0 / 6.0;
 
-            this->ddt *= CGeoTriangle<Real>::area();
+            this->ddt *= CGeoTriangle<Real>::area() * this->m_thickness;
 
             if (this->m_dt > 0.0)
                 this->ddt /= this->m_dt;
diff --git a/trunk/src/fem/flow/FemFlowTriangle_Imp.hpp b/trunk/src/fem/flow/FemFlowTriangle_Imp.hpp
index 12d056a..b7acf30 100644
--- a/trunk/src/fem/flow/FemFlowTriangle_Imp.hpp
+++ b/trunk/src/fem/flow/FemFlowTriangle_Imp.hpp
@@ -89,6 +89,7 @@ namespace ENigMA
                 Ks4 *= va * vs / (12.0 * CGeoTriangle<Real>::area());
 
                 CFemElement<Real>::divergence = C - CFemElement<Real>::m_dt * (Ks1 + Ks2 + Ks3 + Ks4);
+                CFemElement<Real>::divergence *= this->m_thickness;
             }
 
             template <typename Real>
@@ -114,7 +115,7 @@ namespace ENigMA
                         bi, bj, bk,
                         bi, bj, bk;
 
-                    G1 *= 1.0 / 6.0;
+                    G1 *= this->m_thickness / 6.0;
 
                     CFemElement<Real>::gradient = G1;
                 }
@@ -126,7 +127,7 @@ namespace ENigMA
                         ci, cj, ck,
                         ci, cj, ck;
 
-                    G2 *= 1.0 / 6.0;
+                    G2 *= this->m_thickness / 6.0;
 
                     CFemElement<Real>::gradient = G2;
                 }
diff --git a/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp b/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp
index 7105524..516bf23 100644
--- a/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp
+++ b/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp
@@ -47,6 +47,8 @@ namespace ENigMA
                         {
                             CFemFlowTriangle<Real, 3, 1, 1> aTriangle;
 
+                            aTriangle.setThickness(anElement.thickness());
+
                             for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
                             {
                                 CGeoCoordinate<Real> aVertex(aField.mesh().node(anElement.nodeId(i)));
-- 
2.43.0


From 4f6fcaca58eba365b22714d417c5d1ede3dff8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 054/123] fix: elasticity matrix of the constant-strain
 tetrahedron lacked an entry (unsymmetric stiffness, wrong stresses)

---
 trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp b/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp
index 88893fb..119c69a 100644
--- a/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp
+++ b/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp
@@ -47,7 +47,7 @@ namespace ENigMA
 
                 Real v = CFemStructuralElement<Real>::coeffPoisson();
 
-                D << 1.0 - v, v, 0.0, 0.0, 0.0, 0.0,
+                D << 1.0 - v, v, v, 0.0, 0.0, 0.0,
                     v, 1.0 - v, v, 0.0, 0.0, 0.0,
                     v, v, 1.0 - v, 0.0, 0.0, 0.0,
                     0.0, 0.0, 0.0, 0.5 - v, 0.0, 0.0,
-- 
2.43.0


From 7b3c568e62d84de6cff51c7b1801f8e7de8de580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 055/123] fix: convection matrix of the flow tetrahedron used
 the velocity of the wrong node in one entry

---
 trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp b/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp
index b2a4cef..aa252ec 100644
--- a/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp
+++ b/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp
@@ -64,7 +64,7 @@ namespace ENigMA
                 C << (us + u[0]) * bi + (vs + v[0]) * ci + (ws + w[0]) * di, (us + u[0]) * bj + (vs + v[0]) * cj + (ws + w[0]) * dj, (us + u[0]) * bk + (vs + v[0]) * ck + (ws + w[0]) * dk, (us + u[0]) * bl + (vs + v[0]) * cl + (ws + w[0]) * dl,
                     (us + u[1]) * bi + (vs + v[1]) * ci + (ws + w[1]) * di, (us + u[1]) * bj + (vs + v[1]) * cj + (ws + w[1]) * dj, (us + u[1]) * bk + (vs + v[1]) * ck + (ws + w[1]) * dk, (us + u[1]) * bl + (vs + v[1]) * cl + (ws + w[1]) * dl,
                     (us + u[2]) * bi + (vs + v[2]) * ci + (ws + w[2]) * di, (us + u[2]) * bj + (vs + v[2]) * cj + (ws + w[2]) * dj, (us + u[2]) * bk + (vs + v[2]) * ck + (ws + w[2]) * dk, (us + u[2]) * bl + (vs + v[2]) * cl + (ws + w[2]) * dl,
-                    (us + u[3]) * bi + (vs + v[3]) * ci + (ws + w[3]) * di, (us + u[3]) * bj + (vs + v[3]) * cj + (ws + w[3]) * dj, (us + u[2]) * bk + (vs + v[3]) * ck + (ws + w[3]) * dk, (us + u[3]) * bl + (vs + v[3]) * cl + (ws + w[3]) * dl;
+                    (us + u[3]) * bi + (vs + v[3]) * ci + (ws + w[3]) * di, (us + u[3]) * bj + (vs + v[3]) * cj + (ws + w[3]) * dj, (us + u[3]) * bk + (vs + v[3]) * ck + (ws + w[3]) * dk, (us + u[3]) * bl + (vs + v[3]) * cl + (ws + w[3]) * dl;
 
                 C *= 1.0 / 120.0;
 
-- 
2.43.0


From 386cc7ea5c3ed2b923592e1ce6181816ca01e6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 056/123] fix: triangles in a plane z = constant other than 0
 were turned before computing x and y derivatives

---
 trunk/src/fem/FemTriangle_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/fem/FemTriangle_Imp.hpp b/trunk/src/fem/FemTriangle_Imp.hpp
index ab5ca1f..f75b20a 100644
--- a/trunk/src/fem/FemTriangle_Imp.hpp
+++ b/trunk/src/fem/FemTriangle_Imp.hpp
@@ -36,7 +36,7 @@ namespace ENigMA
             CGeoCoordinate<Real> n2 = this->m_vertices[1];
             CGeoCoordinate<Real> n3 = this->m_vertices[2];
 
-            if (n1.z() != 0.0 || n2.z() != 0.0 || n3.z() != 0.0)
+            if (n1.z() != n2.z() || n1.z() != n3.z())
             {
                 CGeoVector<Real> v1 = n2 - n1;
                 CGeoVector<Real> v2 = n3 - n1;
-- 
2.43.0


From 2e6745f72a5ac18816b4ed503c7e243ce7d799a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 057/123] fix: stabilisation of the flow elements was twice the
 second-order term of the implicit time step (modes below unit Courant number
 grew)

---
 trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp | 2 +-
 trunk/src/fem/flow/FemFlowTriangle_Imp.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp b/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp
index aa252ec..1d9294a 100644
--- a/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp
+++ b/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp
@@ -137,7 +137,7 @@ namespace ENigMA
 
                 Ks9 *= wa * ws / (144.0 * CGeoTetrahedron<Real>::volume());
 
-                CFemElement<Real>::divergence = C - CFemElement<Real>::m_dt * (Ks1 + Ks2 + Ks3 + Ks4 + Ks5 + Ks6 + Ks7 + Ks8 + Ks9);
+                CFemElement<Real>::divergence = C - 0.5 * CFemElement<Real>::m_dt * (Ks1 + Ks2 + Ks3 + Ks4 + Ks5 + Ks6 + Ks7 + Ks8 + Ks9);
             }
 
             template <typename Real>
diff --git a/trunk/src/fem/flow/FemFlowTriangle_Imp.hpp b/trunk/src/fem/flow/FemFlowTriangle_Imp.hpp
index b7acf30..af55f7b 100644
--- a/trunk/src/fem/flow/FemFlowTriangle_Imp.hpp
+++ b/trunk/src/fem/flow/FemFlowTriangle_Imp.hpp
@@ -88,7 +88,7 @@ namespace ENigMA
 
                 Ks4 *= va * vs / (12.0 * CGeoTriangle<Real>::area());
 
-                CFemElement<Real>::divergence = C - CFemElement<Real>::m_dt * (Ks1 + Ks2 + Ks3 + Ks4);
+                CFemElement<Real>::divergence = C - 0.5 * CFemElement<Real>::m_dt * (Ks1 + Ks2 + Ks3 + Ks4);
                 CFemElement<Real>::divergence *= this->m_thickness;
             }
 
-- 
2.43.0


From be40228b56c527f547d14d3075a1377a675c8a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 058/123] fix: convection entered the thermal elements with the
 opposite sign of conduction, and twice on beams

---
 .../src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp | 11 +++++++----
 .../FemLinearTemperatureQuadrilateral_Imp.hpp        | 12 ++++++------
 .../fem/thermal/FemLinearTemperatureTriangle_Imp.hpp | 12 ++++++------
 3 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/trunk/src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp b/trunk/src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp
index 2952b94..f0fb975 100644
--- a/trunk/src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp
+++ b/trunk/src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp
@@ -30,11 +30,14 @@ namespace ENigMA
             template <typename Real>
             void CFemLinearTemperatureBeam<Real, 2, 1, 1>::setConvectionOnEdge(const Real h, const Real Tinf)
             {
-                CFemElement<Real>::source(0) += h * Tinf * this->m_perimeter * this->m_length;
-                CFemElement<Real>::source(1) += h * Tinf * this->m_perimeter * this->m_length;
+                CFemElement<Real>::source(0) -= h * Tinf * this->m_perimeter * this->m_length * 0.5;
+                CFemElement<Real>::source(1) -= h * Tinf * this->m_perimeter * this->m_length * 0.5;
 
-                CFemElement<Real>::laplacian(0, 0) += h * this->m_perimeter * this->m_length;
-                CFemElement<Real>::laplacian(1, 1) += h * this->m_perimeter * this->m_length;
+                CFemElement<Real>::laplacian(0, 0) -= h * this->m_perimeter * this->m_length / 3.0;
+                CFemElement<Real>::laplacian(0, 1) -= h * this->m_perimeter * this->m_length / 6.0;
+
+                CFemElement<Real>::laplacian(1, 0) -= h * this->m_perimeter * this->m_length / 6.0;
+                CFemElement<Real>::laplacian(1, 1) -= h * this->m_perimeter * this->m_length / 3.0;
             }
 
             template <typename Real>
diff --git a/trunk/src/fem/thermal/FemLinearTemperatureQuadrilateral_Imp.hpp b/trunk/src/fem/thermal/FemLinearTemperatureQuadrilateral_Imp.hpp
index b4ec329..4daed78 100644
--- a/trunk/src/fem/thermal/FemLinearTemperatureQuadrilateral_Imp.hpp
+++ b/trunk/src/fem/thermal/FemLinearTemperatureQuadrilateral_Imp.hpp
@@ -40,14 +40,14 @@ namespace ENigMA
 
                 Real edgeLenth = v.norm();
 
-                CFemElement<Real>::source(aNodeIndex1) += h * Tinf * edgeLenth * this->m_thickness * 0.5;
-                CFemElement<Real>::source(aNodeIndex2) += h * Tinf * edgeLenth * this->m_thickness * 0.5;
+                CFemElement<Real>::source(aNodeIndex1) -= h * Tinf * edgeLenth * this->m_thickness * 0.5;
+                CFemElement<Real>::source(aNodeIndex2) -= h * Tinf * edgeLenth * this->m_thickness * 0.5;
 
-                CFemElement<Real>::laplacian(aNodeIndex1, aNodeIndex1) += h * edgeLenth * this->m_thickness / 3.0;
-                CFemElement<Real>::laplacian(aNodeIndex1, aNodeIndex2) += h * edgeLenth * this->m_thickness / 6.0;
+                CFemElement<Real>::laplacian(aNodeIndex1, aNodeIndex1) -= h * edgeLenth * this->m_thickness / 3.0;
+                CFemElement<Real>::laplacian(aNodeIndex1, aNodeIndex2) -= h * edgeLenth * this->m_thickness / 6.0;
 
-                CFemElement<Real>::laplacian(aNodeIndex2, aNodeIndex1) += h * edgeLenth * this->m_thickness / 6.0;
-                CFemElement<Real>::laplacian(aNodeIndex2, aNodeIndex2) += h * edgeLenth * this->m_thickness / 3.0;
+                CFemElement<Real>::laplacian(aNodeIndex2, aNodeIndex1) -= h * edgeLenth * this->m_thickness / 6.0;
+                CFemElement<Real>::laplacian(aNodeIndex2, aNodeIndex2) -= h * edgeLenth * this->m_thickness / 3.0;
             }
 
             template <typename Real>
diff --git a/trunk/src/fem/thermal/FemLinearTemperatureTriangle_Imp.hpp b/trunk/src/fem/thermal/FemLinearTemperatureTriangle_Imp.hpp
index d9a8228..2dd835f 100644
--- a/trunk/src/fem/thermal/FemLinearTemperatureTriangle_Imp.hpp
+++ b/trunk/src/fem/thermal/FemLinearTemperatureTriangle_Imp.hpp
@@ -48,14 +48,14 @@ namespace ENigMA
 
                 Real edgeLenth = v.norm();
 
-                CFemElement<Real>::source(aNodeIndex1) += h * Tinf * edgeLenth * this->m_thickness * 0.5;
-                CFemElement<Real>::source(aNodeIndex2) += h * Tinf * edgeLenth * this->m_thickness * 0.5;
+                CFemElement<Real>::source(aNodeIndex1) -= h * Tinf * edgeLenth * this->m_thickness * 0.5;
+                CFemElement<Real>::source(aNodeIndex2) -= h * Tinf * edgeLenth * this->m_thickness * 0.5;
 
-                CFemElement<Real>::laplacian(aNodeIndex1, aNodeIndex1) += h * edgeLenth * this->m_thickness / 3.0;
-                CFemElement<Real>::laplacian(aNodeIndex1, aNodeIndex2) += h * edgeLenth * this->m_thickness / 6.0;
+                CFemElement<Real>::laplacian(aNodeIndex1, aNodeIndex1) -= h * edgeLenth * this->m_thickness / 3.0;
+                CFemElement<Real>::laplacian(aNodeIndex1, aNodeIndex2) -= h * edgeLenth * this->m_thickness / 6.0;
 
-                CFemElement<Real>::laplacian(aNodeIndex2, aNodeIndex1) += h * edgeLenth * this->m_thickness / 6.0;
-                CFemElement<Real>::laplacian(aNodeIndex2, aNodeIndex2) += h * edgeLenth * this->m_thickness / 3.0;
+                CFemElement<Real>::laplacian(aNodeIndex2, aNodeIndex1) -= h * edgeLenth * this->m_thickness / 6.0;
+                CFemElement<Real>::laplacian(aNodeIndex2, aNodeIndex2) -= h * edgeLenth * this->m_thickness / 3.0;
             }
 
             template <typename Real>
-- 
2.43.0


From 913cec8d3dba8240b3632c4316f990cf55d793bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 059/123] fix: linearised radiation on thermal elements did not
 compile, or recursed without end on beams

---
 trunk/src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp       | 5 ++++-
 .../fem/thermal/FemLinearTemperatureQuadrilateral_Imp.hpp    | 2 +-
 trunk/src/fem/thermal/FemLinearTemperatureTriangle_Imp.hpp   | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/trunk/src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp b/trunk/src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp
index f0fb975..d5618b7 100644
--- a/trunk/src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp
+++ b/trunk/src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp
@@ -43,7 +43,10 @@ namespace ENigMA
             template <typename Real>
             void CFemLinearTemperatureBeam<Real, 2, 1, 1>::setConvectionOnEdge(const Real e, const Real teta, const Real Tinf)
             {
-                this->setConvectionOnEdge(e, teta, Tinf);
+                // Stefan-boltzmann constant
+                Real sigma = 5.6704E-8;
+
+                this->setConvectionOnEdge(sigma * e * teta, Tinf);
             }
         }
     }
diff --git a/trunk/src/fem/thermal/FemLinearTemperatureQuadrilateral_Imp.hpp b/trunk/src/fem/thermal/FemLinearTemperatureQuadrilateral_Imp.hpp
index 4daed78..b4caa2d 100644
--- a/trunk/src/fem/thermal/FemLinearTemperatureQuadrilateral_Imp.hpp
+++ b/trunk/src/fem/thermal/FemLinearTemperatureQuadrilateral_Imp.hpp
@@ -56,7 +56,7 @@ namespace ENigMA
                 // Stefan-boltzmann constant
                 Real sigma = 5.6704E-8;
 
-                CFemThermalElement<Real>::setSourceOnEdge(anEdgeIndex, sigma * e * teta, Tinf);
+                this->setConvectionOnEdge(anEdgeIndex, sigma * e * teta, Tinf);
             }
         }
     }
diff --git a/trunk/src/fem/thermal/FemLinearTemperatureTriangle_Imp.hpp b/trunk/src/fem/thermal/FemLinearTemperatureTriangle_Imp.hpp
index 2dd835f..f965fb0 100644
--- a/trunk/src/fem/thermal/FemLinearTemperatureTriangle_Imp.hpp
+++ b/trunk/src/fem/thermal/FemLinearTemperatureTriangle_Imp.hpp
@@ -64,7 +64,7 @@ namespace ENigMA
                 // Stefan-boltzmann constant
                 Real sigma = 5.6704E-8;
 
-                CFemThermalElement<Real>::setSourceOnEdge(anEdgeIndex, sigma * e * teta, Tinf);
+                this->setConvectionOnEdge(anEdgeIndex, sigma * e * teta, Tinf);
             }
         }
     }
-- 
2.43.0


From 556b59d43936a995d1ace890fab3c499919a27e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 060/123] fix: convective conditions on quadrilaterals were
 ignored

---
 .../pde/fem/thermal/FemThermalOperators_Imp.hpp  | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp b/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
index 5a5aeef..393deb5 100644
--- a/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
+++ b/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
@@ -358,6 +358,22 @@ namespace ENigMA
 
                             aQuadrilateral.update();
 
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                if (aField.elementHasBC(anElementId, i))
+                                {
+                                    CPdeBoundaryCondition<Real> aCondition = aField.elementBC(anElementId, i);
+
+                                    if (aCondition.boundaryConditionType() == BT_HEAT_CONVECTIVE)
+                                    {
+                                        Real h = aCondition.conditionValue(CT_HEAT_TRANSFER_COEFFICIENT);
+                                        Real Tinf = aCondition.conditionValue(CT_HEAT_INFINITESIMAL_TEMPERATURE);
+
+                                        aQuadrilateral.setConvectionOnEdge(i, h, Tinf);
+                                    }
+                                }
+                            }
+
                             for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
                             {
                                 for (Integer k = 0; k < aField.nbDofs(); ++k)
-- 
2.43.0


From 3d575fea3b0bd2d8676960a9be3c63ad0a438cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 061/123] fix: the three-dimensional Gaussian kernel is not
 normalised

---
 trunk/src/sph/SphGaussian_Imp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/src/sph/SphGaussian_Imp.hpp b/trunk/src/sph/SphGaussian_Imp.hpp
index 4f0d1b3..0dbbaee 100644
--- a/trunk/src/sph/SphGaussian_Imp.hpp
+++ b/trunk/src/sph/SphGaussian_Imp.hpp
@@ -53,7 +53,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
-                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * h * h * h);
+                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * sqrt(CSphKernel<Real>::m_pi) * h * h * h);
 
             return CSphKernel<Real>::m_C * exp(-q * q);
         }
@@ -74,7 +74,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
-                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * h * h * h);
+                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * sqrt(CSphKernel<Real>::m_pi) * h * h * h);
 
             return CSphKernel<Real>::m_C * 2 * exp(-q * q) * r;
         }
@@ -92,7 +92,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
-                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * h * h * h);
+                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * sqrt(CSphKernel<Real>::m_pi) * h * h * h);
 
             Real w = exp(-q * q);
             Real dw = -2.0 * q * w;
-- 
2.43.0


From ccf4f1c5c93b099b841a7de86f0893ef9d7768d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 062/123] fix: the cubic spline kernel is four times too large

---
 trunk/src/sph/SphCubicSpline_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/sph/SphCubicSpline_Imp.hpp b/trunk/src/sph/SphCubicSpline_Imp.hpp
index ca4780f..3e746e1 100644
--- a/trunk/src/sph/SphCubicSpline_Imp.hpp
+++ b/trunk/src/sph/SphCubicSpline_Imp.hpp
@@ -56,9 +56,9 @@ namespace ENigMA
                 CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * h * h * h);
 
             if (q >= 0 && q < 1.0)
-                return CSphKernel<Real>::m_C * ((2 - q) * (2 - q) * (2 - q) - 4 * (1 - q) * (1 - q) * (1 - q));
+                return CSphKernel<Real>::m_C * 0.25 * ((2 - q) * (2 - q) * (2 - q) - 4 * (1 - q) * (1 - q) * (1 - q));
             else
-                return CSphKernel<Real>::m_C * (2 - q) * (2 - q) * (2 - q);
+                return CSphKernel<Real>::m_C * 0.25 * (2 - q) * (2 - q) * (2 - q);
         }
 
         template <typename Real>
-- 
2.43.0


From a1ebc714a8437f085764007c874a60d2e28a827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 063/123] fix: one-dimensional quintic, convex and spiky
 kernels integrate to two

---
 trunk/src/sph/SphConvex_Imp.hpp  | 6 +++---
 trunk/src/sph/SphQuintic_Imp.hpp | 6 +++---
 trunk/src/sph/SphSpiky_Imp.hpp   | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/trunk/src/sph/SphConvex_Imp.hpp b/trunk/src/sph/SphConvex_Imp.hpp
index 90267ff..3d182a0 100644
--- a/trunk/src/sph/SphConvex_Imp.hpp
+++ b/trunk/src/sph/SphConvex_Imp.hpp
@@ -49,7 +49,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 5.0 / (24.0 * h);
+                CSphKernel<Real>::m_C = 5.0 / (48.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 15.0 / (64.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -70,7 +70,7 @@ namespace ENigMA
                 return CGeoVector<Real>(0, 0, 0);
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 5.0 / (24.0 * h);
+                CSphKernel<Real>::m_C = 5.0 / (48.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 15.0 / (64.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -88,7 +88,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 5.0 / (24.0 * h);
+                CSphKernel<Real>::m_C = 5.0 / (48.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 15.0 / (64.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
diff --git a/trunk/src/sph/SphQuintic_Imp.hpp b/trunk/src/sph/SphQuintic_Imp.hpp
index 7fd6c46..39986c4 100644
--- a/trunk/src/sph/SphQuintic_Imp.hpp
+++ b/trunk/src/sph/SphQuintic_Imp.hpp
@@ -49,7 +49,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 3.0 / (2.0 * h);
+                CSphKernel<Real>::m_C = 3.0 / (4.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 7.0 / (4.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -70,7 +70,7 @@ namespace ENigMA
                 return CGeoVector<Real>(0, 0, 0);
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 3.0 / (2.0 * h);
+                CSphKernel<Real>::m_C = 3.0 / (4.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 7.0 / (4.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -88,7 +88,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 3.0 / (2.0 * h);
+                CSphKernel<Real>::m_C = 3.0 / (4.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 7.0 / (4.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
diff --git a/trunk/src/sph/SphSpiky_Imp.hpp b/trunk/src/sph/SphSpiky_Imp.hpp
index 68d2f09..013ab9f 100644
--- a/trunk/src/sph/SphSpiky_Imp.hpp
+++ b/trunk/src/sph/SphSpiky_Imp.hpp
@@ -53,7 +53,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 4.0 / h;
+                CSphKernel<Real>::m_C = 2.0 / h;
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 10.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -75,7 +75,7 @@ namespace ENigMA
                 return CGeoVector<Real>(0, 0, 0);
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 4.0 / h;
+                CSphKernel<Real>::m_C = 2.0 / h;
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 10.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -94,7 +94,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 4.0 / h;
+                CSphKernel<Real>::m_C = 2.0 / h;
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 10.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
-- 
2.43.0


From c5b259770427384c4cd60db4ca3d21c06784212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 064/123] fix: the gradient of the convex kernel is not that of
 its value

---
 trunk/src/sph/SphConvex_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/sph/SphConvex_Imp.hpp b/trunk/src/sph/SphConvex_Imp.hpp
index 3d182a0..a4f5309 100644
--- a/trunk/src/sph/SphConvex_Imp.hpp
+++ b/trunk/src/sph/SphConvex_Imp.hpp
@@ -76,7 +76,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 3)
                 CSphKernel<Real>::m_C = 21.0 / (128.0 * CSphKernel<Real>::m_pi * h * h * h);
 
-            return -CSphKernel<Real>::m_C * (pow(2 - q, 1.5) - 3 * (2 - q) * (2 - q) * (0.5 * q + 1)) / q * r;
+            return -CSphKernel<Real>::m_C * (0.5 * pow(2 - q, 3) - 3 * (2 - q) * (2 - q) * (0.5 * q + 1)) / q * r;
         }
 
         template <typename Real>
-- 
2.43.0


From 55f14f975bd3a9e5d46d5447dfaea40cf340b8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:55 +0000
Subject: [PATCH 065/123] fix: SPH particles move with the y and z components
 of their velocity

---
 trunk/src/solvers/SphParticles_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/solvers/SphParticles_Imp.hpp b/trunk/src/solvers/SphParticles_Imp.hpp
index c99bfaf..cc0b862 100644
--- a/trunk/src/solvers/SphParticles_Imp.hpp
+++ b/trunk/src/solvers/SphParticles_Imp.hpp
@@ -124,8 +124,8 @@ namespace ENigMA
                 CMshNode<Real>& aNode1 = aField.mesh().node(aNodeId1);
 
                 aNode1.x() += m_particles[i].velocity.x() * m_dt;
-                aNode1.y() += m_particles[i].velocity.z() * m_dt;
-                aNode1.z() += m_particles[i].velocity.y() * m_dt;
+                aNode1.y() += m_particles[i].velocity.y() * m_dt;
+                aNode1.z() += m_particles[i].velocity.z() * m_dt;
 
                 if (m_bCyclic)
                 {
-- 
2.43.0


From 6cdf10f173935b277f4e3af67a6d413bf92bb92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 066/123] fix: SPH heat exchange uses the positions its
 neighbour grid was built from

---
 trunk/src/solvers/SphParticles_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/solvers/SphParticles_Imp.hpp b/trunk/src/solvers/SphParticles_Imp.hpp
index cc0b862..5ea065d 100644
--- a/trunk/src/solvers/SphParticles_Imp.hpp
+++ b/trunk/src/solvers/SphParticles_Imp.hpp
@@ -194,9 +194,9 @@ namespace ENigMA
 
             this->calculateDensity(aField, aHashGrid);
 
-            this->advectParticles(aField);
-
             this->addDiffusion(aField, aHashGrid);
+
+            this->advectParticles(aField);
         }
     }
 }
-- 
2.43.0


From f95a7203ecf41ddef92b0d144495c6ce9460d01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 067/123] fix: SPH heat exchange uses the temperatures at the
 start of the step for every particle

---
 trunk/src/solvers/SphParticles_Imp.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/trunk/src/solvers/SphParticles_Imp.hpp b/trunk/src/solvers/SphParticles_Imp.hpp
index 5ea065d..d74f3c1 100644
--- a/trunk/src/solvers/SphParticles_Imp.hpp
+++ b/trunk/src/solvers/SphParticles_Imp.hpp
@@ -150,6 +150,11 @@ namespace ENigMA
         template <typename Real>
         void CSphParticles<Real>::addDiffusion(CPdeField<Real>& aField, CGeoHashGrid<Real>& aHashGrid)
         {
+            std::vector<Real> uOld(aField.mesh().nbNodes());
+
+            for (Integer i = 0; i < aField.mesh().nbNodes(); ++i)
+                uOld[i] = aField.u(i);
+
             for (Integer i = 0; i < aField.mesh().nbNodes(); ++i)
             {
 
@@ -172,11 +177,11 @@ namespace ENigMA
                         CMshNode<Real>& aNode2 = aField.mesh().node(aNodeId2);
 
                         Integer j = aField.mesh().nodeIndex(aNodeId2);
-                        Real Tj = aField.u(j);
+                        Real Tj = uOld[j];
 
                         CGeoVector<Real> r = aNode2 - aNode1;
 
-                        fd += (Tj - aField.u(i)) / m_particles[j].density * m_kernel->laplacianW(r, m_h);
+                        fd += (Tj - uOld[i]) / m_particles[j].density * m_kernel->laplacianW(r, m_h);
                     }
 
                     aField.u(i) += m_particles[i].conductivity * fd * m_dt;
-- 
2.43.0


From 2c46dfc473d7894bc31362a2f38b40ecf88ebb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 068/123] fix: SPH heat exchange weighs each neighbour by its
 mass over its density

---
 trunk/src/solvers/SphParticles_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/solvers/SphParticles_Imp.hpp b/trunk/src/solvers/SphParticles_Imp.hpp
index d74f3c1..ee3a2ff 100644
--- a/trunk/src/solvers/SphParticles_Imp.hpp
+++ b/trunk/src/solvers/SphParticles_Imp.hpp
@@ -181,7 +181,7 @@ namespace ENigMA
 
                         CGeoVector<Real> r = aNode2 - aNode1;
 
-                        fd += (Tj - uOld[i]) / m_particles[j].density * m_kernel->laplacianW(r, m_h);
+                        fd += (Tj - uOld[i]) * m_particles[j].mass / m_particles[j].density * m_kernel->laplacianW(r, m_h);
                     }
 
                     aField.u(i) += m_particles[i].conductivity * fd * m_dt;
-- 
2.43.0


From 273d3566c9a5e363d9e3184a74c73342b2d4b457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 069/123] fix: boundary-element assembly looks elements up by
 their identifier

---
 trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp b/trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp
index 97da2ec..e1eacf5 100644
--- a/trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp
+++ b/trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp
@@ -51,7 +51,7 @@ namespace ENigMA
 
                     for (Integer eli = 0; eli < aField.mesh().nbElements(); ++eli)
                     {
-                        CMshElement<Real>& anElementi = aField.mesh().element(eli);
+                        CMshElement<Real>& anElementi = aField.mesh().element(aField.mesh().elementId(eli));
 
                         if (anElementi.elementType() != ET_TRIANGLE)
                             continue;
@@ -66,7 +66,7 @@ namespace ENigMA
 
                         for (Integer elj = 0; elj < aField.mesh().nbElements(); ++elj)
                         {
-                            CMshElement<Real>& anElementj = aField.mesh().element(elj);
+                            CMshElement<Real>& anElementj = aField.mesh().element(aField.mesh().elementId(elj));
 
                             if (anElementj.elementType() != ET_TRIANGLE)
                                 continue;
-- 
2.43.0


From 74f3fbfeb47ef8cafda26be77bd55e01e58e36d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 070/123] fix: Gmsh files of fields on meshes with arbitrary
 identifiers can be saved

---
 trunk/src/post/PosGmsh_Imp.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/trunk/src/post/PosGmsh_Imp.hpp b/trunk/src/post/PosGmsh_Imp.hpp
index efc40b2..727553e 100644
--- a/trunk/src/post/PosGmsh_Imp.hpp
+++ b/trunk/src/post/PosGmsh_Imp.hpp
@@ -275,14 +275,12 @@ namespace ENigMA
 
                         for (Integer i = 0; i < aField.mesh().nbNodes(); ++i)
                         {
-                            Integer index = aField.mesh().nodeIndex(i);
-
                             if (aField.nbDofs() == 1)
-                                fileGmsh << index + 1 << std::setprecision(16) << " " << aField.u(i) << std::endl;
+                                fileGmsh << i + 1 << std::setprecision(16) << " " << aField.u(i) << std::endl;
                             else if (aField.nbDofs() == 2)
-                                fileGmsh << index + 1 << std::setprecision(16) << " " << aField.u(i * 2 + 0) << " " << aField.u(i * 2 + 1) << std::endl;
+                                fileGmsh << i + 1 << std::setprecision(16) << " " << aField.u(i * 2 + 0) << " " << aField.u(i * 2 + 1) << std::endl;
                             else if (aField.nbDofs() == 3)
-                                fileGmsh << index + 1 << std::setprecision(16) << " " << aField.u(i * 3 + 0) << " " << aField.u(i * 3 + 1) << " " << aField.u(i * 3 + 2) << std::endl;
+                                fileGmsh << i + 1 << std::setprecision(16) << " " << aField.u(i * 3 + 0) << " " << aField.u(i * 3 + 1) << " " << aField.u(i * 3 + 2) << std::endl;
                         }
 
                         fileGmsh << "$EndNodeData" << std::endl;
@@ -309,14 +307,12 @@ namespace ENigMA
 
                         for (Integer i = 0; i < aField.mesh().nbElements(); ++i)
                         {
-                            Integer index = aField.mesh().elementIndex(i);
-
                             if (aField.nbDofs() == 1)
-                                fileGmsh << index + 1 << std::setprecision(16) << " " << aField.u(i) << std::endl;
+                                fileGmsh << i + 1 << std::setprecision(16) << " " << aField.u(i) << std::endl;
                             else if (aField.nbDofs() == 2)
-                                fileGmsh << index + 1 << std::setprecision(16) << " " << aField.u(i * 2 + 0) << " " << aField.u(i * 2 + 1) << std::endl;
+                                fileGmsh << i + 1 << std::setprecision(16) << " " << aField.u(i * 2 + 0) << " " << aField.u(i * 2 + 1) << std::endl;
                             else if (aField.nbDofs() == 3)
-                                fileGmsh << index + 1 << std::setprecision(16) << " " << aField.u(i * 3 + 0) << " " << aField.u(i * 3 + 1) << " " << aField.u(i * 3 + 2) << std::endl;
+                                fileGmsh << i + 1 << std::setprecision(16) << " " << aField.u(i * 3 + 0) << " " << aField.u(i * 3 + 1) << " " << aField.u(i * 3 + 2) << std::endl;
                         }
 
                         fileGmsh << "$EndElementData" << std::endl;
-- 
2.43.0


From ea5d28fce4d1401b2b89b44f84d2fee0a5b53e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:19 +0000
Subject: [PATCH 071/123] fix: the view name in Gmsh files is quoted

---
 trunk/src/post/PosGmsh_Imp.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/trunk/src/post/PosGmsh_Imp.hpp b/trunk/src/post/PosGmsh_Imp.hpp
index 727553e..bfca60b 100644
--- a/trunk/src/post/PosGmsh_Imp.hpp
+++ b/trunk/src/post/PosGmsh_Imp.hpp
@@ -257,10 +257,7 @@ namespace ENigMA
                     {
                         fileGmsh << "$NodeData" << std::endl;
                         fileGmsh << "1" << std::endl;
-                        fileGmsh << ""
-                                    ""
-                                 << strViewName << ""
-                                                   ""
+                        fileGmsh << "\"" << strViewName << "\""
                                  << std::endl;
 
                         fileGmsh << "1" << std::endl;
@@ -289,10 +286,7 @@ namespace ENigMA
                     {
                         fileGmsh << "$ElementData" << std::endl;
                         fileGmsh << "1" << std::endl;
-                        fileGmsh << ""
-                                    ""
-                                 << strViewName << ""
-                                                   ""
+                        fileGmsh << "\"" << strViewName << "\""
                                  << std::endl;
 
                         fileGmsh << "1" << std::endl;
-- 
2.43.0


From 4dff433926fb2a4c6708de07b424a956e5f52e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 072/123] fix: node elements are read back from Gmsh files

---
 trunk/src/post/PosGmsh_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/post/PosGmsh_Imp.hpp b/trunk/src/post/PosGmsh_Imp.hpp
index bfca60b..f0e5b6b 100644
--- a/trunk/src/post/PosGmsh_Imp.hpp
+++ b/trunk/src/post/PosGmsh_Imp.hpp
@@ -95,7 +95,7 @@ namespace ENigMA
 
                         fileGmsh >> id >> nType >> nTags;
 
-                        if (nType < 1 || nType > 6)
+                        if ((nType < 1 || nType > 6) && nType != 15)
                         {
                             std::string line;
                             std::getline(fileGmsh, line);
-- 
2.43.0


From 96688d21398801fa726d49add051f5238c464546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 073/123] fix: truncated Gmsh files are reported instead of
 filling the mesh with garbage

---
 trunk/src/post/PosGmsh_Imp.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trunk/src/post/PosGmsh_Imp.hpp b/trunk/src/post/PosGmsh_Imp.hpp
index f0e5b6b..f7ce606 100644
--- a/trunk/src/post/PosGmsh_Imp.hpp
+++ b/trunk/src/post/PosGmsh_Imp.hpp
@@ -73,6 +73,9 @@ namespace ENigMA
 
                         fileGmsh >> id >> x >> y >> z;
 
+                        if (fileGmsh.fail())
+                            return false;
+
                         ENigMA::mesh::CMshNode<Real> aNode(x, y, z);
 
                         aField.mesh().addNode(id - 1, aNode);
@@ -95,6 +98,9 @@ namespace ENigMA
 
                         fileGmsh >> id >> nType >> nTags;
 
+                        if (fileGmsh.fail())
+                            return false;
+
                         if ((nType < 1 || nType > 6) && nType != 15)
                         {
                             std::string line;
@@ -155,6 +161,9 @@ namespace ENigMA
                         {
                             fileGmsh >> aNodeId;
 
+                            if (fileGmsh.fail())
+                                return false;
+
                             anElement.addNodeId(aNodeId - 1);
                         }
 
-- 
2.43.0


From 9de8b6979c4e9b50ad0f6305ab1a5731f99c9405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 074/123] fix: the first coordinate in VTK files is written
 with full precision

---
 trunk/src/post/PosVtk_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/post/PosVtk_Imp.hpp b/trunk/src/post/PosVtk_Imp.hpp
index 34afd96..6dddeb6 100644
--- a/trunk/src/post/PosVtk_Imp.hpp
+++ b/trunk/src/post/PosVtk_Imp.hpp
@@ -65,7 +65,7 @@ namespace ENigMA
                 {
                     Integer id = aField.mesh().nodeId(i);
 
-                    fileVtk << aField.mesh().node(id).x() << std::setprecision(16) << " " << aField.mesh().node(id).y() << " " << aField.mesh().node(id).z() << std::endl;
+                    fileVtk << std::setprecision(16) << aField.mesh().node(id).x() << " " << aField.mesh().node(id).y() << " " << aField.mesh().node(id).z() << std::endl;
                 }
 
                 Integer nSize = 0;
-- 
2.43.0


From da40c9e5aa83b018d039ba874b1d136e49a974c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 075/123] fix: VTK files contain the nodes of quadrilaterals

---
 trunk/src/post/PosVtk_Imp.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trunk/src/post/PosVtk_Imp.hpp b/trunk/src/post/PosVtk_Imp.hpp
index 6dddeb6..d3fc13c 100644
--- a/trunk/src/post/PosVtk_Imp.hpp
+++ b/trunk/src/post/PosVtk_Imp.hpp
@@ -129,6 +129,11 @@ namespace ENigMA
                         break;
                     case ET_QUADRILATERAL:
                         nElemSize = 4;
+                        fileVtk << nElemSize;
+                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(0));
+                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(1));
+                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(2));
+                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(3));
                         break;
                     case ET_TETRAHEDRON:
                         nElemSize = 4;
-- 
2.43.0


From e5ad47fb249d85f18efaa9b88ed149ec5f821a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:51 +0000
Subject: [PATCH 076/123] fix: VTK files of fields on meshes with arbitrary
 identifiers can be saved

---
 trunk/src/post/PosVtk_Imp.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/trunk/src/post/PosVtk_Imp.hpp b/trunk/src/post/PosVtk_Imp.hpp
index d3fc13c..9084851 100644
--- a/trunk/src/post/PosVtk_Imp.hpp
+++ b/trunk/src/post/PosVtk_Imp.hpp
@@ -219,8 +219,6 @@ namespace ENigMA
 
                         for (Integer i = 0; i < aField.mesh().nbNodes(); ++i)
                         {
-                            Integer index = aField.mesh().nodeIndex(i);
-
                             if (aField.nbDofs() == 1)
                                 fileVtk << aField.u(i) << std::endl;
                         }
-- 
2.43.0


From 7025d2358648046074c90a42a79ef853a5a2f2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 077/123] fix: node elements are written to VTK files as
 vertices

---
 trunk/src/post/PosVtk_Imp.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/trunk/src/post/PosVtk_Imp.hpp b/trunk/src/post/PosVtk_Imp.hpp
index 9084851..e971bc5 100644
--- a/trunk/src/post/PosVtk_Imp.hpp
+++ b/trunk/src/post/PosVtk_Imp.hpp
@@ -78,6 +78,9 @@ namespace ENigMA
 
                     switch (aField.mesh().element(id).elementType())
                     {
+                    case ET_NODE:
+                        nElemSize = 1;
+                        break;
                     case ET_BEAM:
                         nElemSize = 2;
                         break;
@@ -114,6 +117,11 @@ namespace ENigMA
 
                     switch (aField.mesh().element(id).elementType())
                     {
+                    case ET_NODE:
+                        nElemSize = 1;
+                        fileVtk << nElemSize;
+                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(0));
+                        break;
                     case ET_BEAM:
                         nElemSize = 2;
                         fileVtk << nElemSize;
@@ -183,6 +191,9 @@ namespace ENigMA
 
                     switch (aField.mesh().element(id).elementType())
                     {
+                    case ET_NODE:
+                        nElemType = 1;
+                        break;
                     case ET_BEAM:
                         nElemType = 3;
                         break;
-- 
2.43.0


From ce43de3bb12c02227e2f5939b8eac18387bcff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:24 +0000
Subject: [PATCH 078/123] fix: VTK files declare point values only when they
 contain them

---
 trunk/src/post/PosVtk_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/post/PosVtk_Imp.hpp b/trunk/src/post/PosVtk_Imp.hpp
index e971bc5..ab369d6 100644
--- a/trunk/src/post/PosVtk_Imp.hpp
+++ b/trunk/src/post/PosVtk_Imp.hpp
@@ -220,7 +220,7 @@ namespace ENigMA
                     fileVtk << nElemType << std::endl;
                 }
 
-                if (aField.u.size() > 0)
+                if (aField.u.size() > 0 && aField.nbDofs() == 1)
                 {
                     if (aField.discretLocation() == DL_NODE)
                     {
-- 
2.43.0


From 1506d1f379dc18330b655e2395fd6255f7f1062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:22 +0000
Subject: [PATCH 079/123] fix: QuickMesh files can be loaded

---
 trunk/src/post/PosQuickMesh_Imp.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/trunk/src/post/PosQuickMesh_Imp.hpp b/trunk/src/post/PosQuickMesh_Imp.hpp
index 283c28f..ac5e316 100644
--- a/trunk/src/post/PosQuickMesh_Imp.hpp
+++ b/trunk/src/post/PosQuickMesh_Imp.hpp
@@ -9,6 +9,10 @@
 
 #pragma once
 
+#include <fstream>
+#include <iomanip>
+#include <sstream>
+
 #include <fstream>
 
 namespace ENigMA
@@ -34,6 +38,8 @@ namespace ENigMA
 
             if (fileQuickMesh.is_open())
             {
+                aField.mesh().reset();
+
                 while (!fileQuickMesh.eof() && !fileQuickMesh.fail())
                 {
                     std::string line;
@@ -42,12 +48,12 @@ namespace ENigMA
 
                     if (line.find("C") != std::string::npos)
                     {
+                        std::istringstream lineStream(line);
                         std::string desc;
                         Integer id;
                         Real x, y, z;
 
-                        desc.reserve(50);
-                        std::sscanf(line, "%25s %d %f %f %f", &desc[0], &id, &x, &y, &z);
+                        lineStream >> desc >> id >> x >> y >> z;
 
                         CMshNode<Real> aNode(x, y, z);
 
@@ -55,14 +61,12 @@ namespace ENigMA
                     }
                     else if (line.find("t") != std::string::npos)
                     {
+                        std::istringstream lineStream(line);
                         std::string desc;
                         Integer id;
                         Integer n1, n2, n3, n4;
-                        Integer p1, p2, p3, p4;
-                        Real v;
 
-                        desc.reserve(50);
-                        std::sscanf(line, "%25s %d %d %d %d %d %d %d %d %d %f", &desc[0], &id, &n1, &n2, &n3, &n4, &p1, &p2, &p3, &p4, &v);
+                        lineStream >> desc >> id >> n1 >> n2 >> n3 >> n4;
 
                         CMshElement<Real> anElement;
 
-- 
2.43.0


From e23ec89b907ea0f8957d36d2fa227c30cc09821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:54 +0000
Subject: [PATCH 080/123] fix: Gnuplot tables of fields on meshes with
 arbitrary identifiers can be saved

---
 trunk/src/post/PosGnuplot_Imp.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/src/post/PosGnuplot_Imp.hpp b/trunk/src/post/PosGnuplot_Imp.hpp
index dc63a71..2079da8 100644
--- a/trunk/src/post/PosGnuplot_Imp.hpp
+++ b/trunk/src/post/PosGnuplot_Imp.hpp
@@ -41,10 +41,10 @@ namespace ENigMA
                 {
                     for (Integer i = 0; i < aField.mesh().nbNodes(); ++i)
                     {
-                        Integer id = aField.mesh().nodeIndex(i);
+                        Integer id = aField.mesh().nodeId(i);
                         CMshNode<Real> aNode = aField.mesh().node(id);
 
-                        fileGnuplot << id + 1 << std::setprecision(16)
+                        fileGnuplot << i + 1 << std::setprecision(16)
                                     << " " << aNode.x()
                                     << " " << aNode.y()
                                     << " " << aNode.z()
@@ -56,10 +56,10 @@ namespace ENigMA
                 {
                     for (Integer i = 0; i < aField.mesh().nbElements(); ++i)
                     {
-                        Integer id = aField.mesh().elementIndex(i);
+                        Integer id = aField.mesh().elementId(i);
                         CGeoCoordinate<Real> aCentroid = aField.mesh().elementCentroid(id);
 
-                        fileGnuplot << id + 1 << std::setprecision(16)
+                        fileGnuplot << i + 1 << std::setprecision(16)
                                     << " " << aCentroid.x()
                                     << " " << aCentroid.y()
                                     << " " << aCentroid.z()
-- 
2.43.0


From 26e851dd799c1835164587b1114c07494daf175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:15 +0000
Subject: [PATCH 081/123] fix: StlUtils::load skipped files with fewer than 340
 bytes and reported success

---
 trunk/src/stl/StlUtils_Imp.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 9a289ca..0bcf37e 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -102,14 +102,16 @@ namespace ENigMA
                 char chtest[256];
                 fileSTL.read(chtest, sizeof(chtest));
 
+                // A small file holds less than the characters asked for
+                const std::string strTest(chtest, static_cast<std::size_t>(fileSTL.gcount()));
+
+                fileSTL.clear();
+
                 if (fileSTL)
                 {
                     m_stlFile.stats.type = FT_ASCII;
 
-                    char* pch;
-                    pch = strstr(chtest, "vertex");
-
-                    if (pch == NULL)
+                    if (strTest.find("vertex") == std::string::npos)
                         m_stlFile.stats.type = FT_BINARY;
 
                     fileSTL.seekg(0);
-- 
2.43.0


From 4074582a5743c9aa1a8a35511c03af8fcbac5505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 082/123] fix: StlUtils::load accepted a facet cut short by the
 end of the file

---
 trunk/src/stl/StlUtils_Imp.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 0bcf37e..8e8a1f9 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -263,6 +263,13 @@ namespace ENigMA
                             fileSTL >> strEndFacet;
                         }
 
+                        // The file ended before the facet did
+                        if (fileSTL.fail())
+                        {
+                            m_stlFile.reset();
+                            return false;
+                        }
+
                         // Add the facet.
                         m_stlFile.addFacet(i, aFacet);
                     }
-- 
2.43.0


From 5a1a50c96e4dba1dcdd6dd4c3009d3dcf32e2c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:43 +0000
Subject: [PATCH 083/123] fix: StlUtils::save reported success when the file
 could not be opened

---
 trunk/src/stl/StlUtils_Imp.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 8e8a1f9..c840689 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -325,9 +325,11 @@ namespace ENigMA
                 fileSTL << "endsolid" << std::endl;
 
                 fileSTL.close();
+
+                return true;
             }
 
-            return true;
+            return false;
         }
 
         template <typename Real>
@@ -395,9 +397,11 @@ namespace ENigMA
                 }
 
                 fileSTL.close();
+
+                return true;
             }
 
-            return true;
+            return false;
         }
 
         template <typename Real>
-- 
2.43.0


From 856f7948181dc7de4aa93d6c2213cf8009bb28fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:02 +0000
Subject: [PATCH 084/123] fix: StlFile::addFacet listed a facet id twice when
 the id was already used

---
 trunk/src/stl/StlFile_Imp.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trunk/src/stl/StlFile_Imp.hpp b/trunk/src/stl/StlFile_Imp.hpp
index f26da9a..da590c0 100644
--- a/trunk/src/stl/StlFile_Imp.hpp
+++ b/trunk/src/stl/StlFile_Imp.hpp
@@ -113,8 +113,10 @@ namespace ENigMA
         template <typename Real>
         void CStlFile<Real>::addFacet(const Integer aFacetId, CStlFacet<Real>& aFacet)
         {
+            if (m_facets.find(aFacetId) == m_facets.end())
+                m_facetIds.emplace_back(aFacetId);
+
             m_facets[aFacetId] = aFacet;
-            m_facetIds.emplace_back(aFacetId);
         }
 
         template <typename Real>
-- 
2.43.0


From 9b664a2c18ac88d115fca1257fdd2d866780b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:12 +0000
Subject: [PATCH 085/123] fix: StlUtils::generateConnectivity linked different
 edges with the same midpoint

---
 trunk/src/stl/StlUtils_Imp.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index c840689..042119e 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -617,6 +617,18 @@ namespace ENigMA
                             Integer ni = sCoordinates.at(k) / 3;
                             Integer nj = sCoordinates.at(k) % 3;
 
+                            // Different edges can have the same center
+                            CGeoCoordinate<Real> a0 = m_stlFile.facet(aFacetId).vertex((j + 0) % 3);
+                            CGeoCoordinate<Real> a1 = m_stlFile.facet(aFacetId).vertex((j + 1) % 3);
+                            CGeoCoordinate<Real> b0 = m_stlFile.facet(ni).vertex((nj + 0) % 3);
+                            CGeoCoordinate<Real> b1 = m_stlFile.facet(ni).vertex((nj + 1) % 3);
+
+                            bool bOpposite = (a0 - b1).norm() <= aTolerance && (a1 - b0).norm() <= aTolerance;
+                            bool bSame = (a0 - b0).norm() <= aTolerance && (a1 - b1).norm() <= aTolerance;
+
+                            if (!bOpposite && !bSame)
+                                continue;
+
                             m_stlFile.facet(aFacetId).edge(j).setNeighbor(ni);
                             m_stlFile.facet(aFacetId).edge(j).setWhichVertexNot((nj + 2) % 3);
 
-- 
2.43.0


From 7fc368cc3190a6f50dfc3ddd02ff3e1fae138f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:35 +0000
Subject: [PATCH 086/123] fix: StlUtils::mesh stopped sharing a vertex after
 100 facets

---
 trunk/src/stl/StlUtils_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 042119e..43f1a14 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -693,7 +693,7 @@ namespace ENigMA
 
                     Integer aPivotVertex, aNextEdge;
 
-                    for (Integer k = 0; k < 100; k++)
+                    for (Integer k = 0; k < 2 * m_stlFile.nbFacets() + 2; k++)
                     {
                         if (aVertexNot > 2)
                         {
-- 
2.43.0


From e575eac452cf7f3f370b35aec63e433a0e5e4405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 087/123] fix: StlUtils::setOrientation(bool) overwrote the
 first facet and ignored the direction asked for

---
 trunk/src/stl/StlUtils_Imp.hpp | 56 +++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 43f1a14..f365196 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -12,6 +12,7 @@
 #pragma warning(disable : 4996)
 
 #include <fstream>
+#include <set>
 
 #include "GeoHashGrid.hpp"
 
@@ -1499,38 +1500,51 @@ namespace ENigMA
         template <typename Real>
         bool CStlUtils<Real>::setOrientation(bool bPointOut, const Real aTolerance)
         {
-            Integer aFacetId = m_stlFile.facetId(0);
-            CStlFacet<Real>& aFacet = m_stlFile.facet(aFacetId);
+            if (m_stlFile.nbFacets() == 0)
+                return true;
+
+            Integer aPivotFacetId = m_stlFile.facetId(0);
+
+            if (!this->setOrientation(aPivotFacetId, aTolerance))
+                return false;
 
-            aFacet.calculateNormal();
-            aFacet.calculateCentroid();
+            // Signed volume of the surface the pivot belongs to
+            CGeoCoordinate<Real> anOrigin = m_stlFile.facet(aPivotFacetId).vertex(0);
 
-            CGeoCoordinate<Real> aStartPoint = aFacet.centroid();
-            CGeoCoordinate<Real> anEndPoint = aStartPoint + aFacet.normal() * m_stlFile.stats.size.norm();
+            std::vector<Integer> sFacets;
+            std::set<Integer> sVisited;
 
-            CGeoIntersectionType anIntersectionType;
-            CGeoLine<Real> aLine(aStartPoint, anEndPoint);
-            CGeoCoordinate<Real> aNewPoint;
+            sFacets.emplace_back(aPivotFacetId);
+            sVisited.insert(aPivotFacetId);
 
-            Integer nbIntersections = 0;
+            Real aVolume = 0.0;
 
-            for (Integer i = 1; i < m_stlFile.nbFacets(); ++i)
+            for (Integer i = 0; i < static_cast<Integer>(sFacets.size()); ++i)
             {
-                aFacetId = m_stlFile.facetId(i);
-                aFacet = m_stlFile.facet(aFacetId);
+                CStlFacet<Real>& aFacet = m_stlFile.facet(sFacets[i]);
 
-                aFacet.calculateNormal();
+                CGeoVector<Real> v0 = aFacet.vertex(0) - anOrigin;
+                CGeoVector<Real> v1 = aFacet.vertex(1) - anOrigin;
+                CGeoVector<Real> v2 = aFacet.vertex(2) - anOrigin;
 
-                if (aFacet.intersects(aLine, aNewPoint, anIntersectionType, aTolerance))
-                    nbIntersections++;
-            }
+                aVolume += v0.dot(v1.cross(v2));
 
-            //std::cout << nbIntersections << std::endl;
+                for (Integer j = 0; j < 3; ++j)
+                {
+                    Integer aNeighborId = aFacet.edge(j).neighbor();
 
-            if (nbIntersections % 2 != 0)
-                this->invertFacet(aFacetId, 0);
+                    if (aNeighborId != -1 && sVisited.insert(aNeighborId).second)
+                        sFacets.emplace_back(aNeighborId);
+                }
+            }
+
+            if ((aVolume < 0) == bPointOut)
+            {
+                this->invertFacet(aPivotFacetId, 0);
+                return this->setOrientation(aPivotFacetId, aTolerance);
+            }
 
-            return this->setOrientation(aFacetId, aTolerance);
+            return true;
         }
     }
 }
-- 
2.43.0


From 4bb1b0c5cf02d85e0c8ca570cd8abb0871608b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 088/123] fix: StlUtils::removeDuplicateFacets failed on
 removed facets and removed facets that only share centroid and area

---
 trunk/src/stl/StlUtils_Imp.hpp | 39 +++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index f365196..bf10e49 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -501,11 +501,14 @@ namespace ENigMA
 
             aHashGrid.build();
 
+            std::set<Integer> sDuplicates;
+
             for (Integer i = 0; i < m_stlFile.nbFacets(); ++i)
             {
                 Integer aFacetId = m_stlFile.facetId(i);
 
-                m_stlFile.facet(aFacetId).calculateArea();
+                if (sDuplicates.find(aFacetId) != sDuplicates.end())
+                    continue;
 
                 std::vector<Integer> sCoordinates;
 
@@ -513,23 +516,43 @@ namespace ENigMA
 
                 aHashGrid.find(sCoordinates, aCenterCoordinate, aTolerance);
 
-                for (Integer k = 1; k < static_cast<Integer>(sCoordinates.size()); ++k)
+                for (Integer k = 0; k < static_cast<Integer>(sCoordinates.size()); ++k)
                 {
                     Integer wFacetId = sCoordinates.at(k);
 
-                    m_stlFile.facet(wFacetId).calculateArea();
+                    if (wFacetId == aFacetId)
+                        continue;
 
-                    Real area_diff = std::fabs(m_stlFile.facet(aFacetId).area() - m_stlFile.facet(wFacetId).area());
+                    // Both facets must have the same vertices, in any order
+                    bool bSame = true;
 
-                    if (area_diff < aTolerance * aTolerance)
+                    for (Integer j = 0; j < 3; ++j)
                     {
-                        // Remove this facet
-                        this->removeFacet(wFacetId);
-                        i--;
+                        bool bFoundThis = false;
+                        bool bFoundOther = false;
+
+                        for (Integer l = 0; l < 3; ++l)
+                        {
+                            if ((m_stlFile.facet(aFacetId).vertex(j) - m_stlFile.facet(wFacetId).vertex(l)).norm() <= aTolerance)
+                                bFoundThis = true;
+
+                            if ((m_stlFile.facet(aFacetId).vertex(l) - m_stlFile.facet(wFacetId).vertex(j)).norm() <= aTolerance)
+                                bFoundOther = true;
+                        }
+
+                        if (!bFoundThis || !bFoundOther)
+                            bSame = false;
                     }
+
+                    if (bSame)
+                        sDuplicates.insert(wFacetId);
                 }
             }
 
+            // Remove the duplicates
+            for (typename std::set<Integer>::const_iterator it = sDuplicates.begin(); it != sDuplicates.end(); ++it)
+                this->removeFacet(*it);
+
             return true;
         }
 
-- 
2.43.0


From da5168ff26821327a682c7ebb9b5f6435bc313f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 089/123] fix: CsgBoolean::subtract left wrong surfaces for
 solids touching at a point or lying in a common plane

---
 trunk/src/csg/CsgBoolean_Imp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trunk/src/csg/CsgBoolean_Imp.hpp b/trunk/src/csg/CsgBoolean_Imp.hpp
index 45c313f..56d0876 100644
--- a/trunk/src/csg/CsgBoolean_Imp.hpp
+++ b/trunk/src/csg/CsgBoolean_Imp.hpp
@@ -111,7 +111,10 @@ namespace ENigMA
 
             a.invert();
             a.clipTo(b);
-            b.clipTo(a, true);
+            b.clipTo(a);
+            b.invert();
+            b.clipTo(a);
+            b.invert();
             a.build(b.allPolygons());
             a.invert();
 
-- 
2.43.0


From c95ed0247bc466e710ffaff9735eafd378435c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 090/123] fix: CsgBoolean operations read an uninitialised
 plane when one of the solids is empty

---
 trunk/src/csg/CsgBoolean_Imp.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/trunk/src/csg/CsgBoolean_Imp.hpp b/trunk/src/csg/CsgBoolean_Imp.hpp
index 56d0876..1ca5523 100644
--- a/trunk/src/csg/CsgBoolean_Imp.hpp
+++ b/trunk/src/csg/CsgBoolean_Imp.hpp
@@ -72,6 +72,13 @@ namespace ENigMA
         template <typename Real>
         CCsgBoolean<Real> CCsgBoolean<Real>::add(CCsgBoolean<Real> aCSg)
         {
+            // One of the solids may be empty
+            if (this->m_polygons.size() == 0)
+                return CCsgBoolean<Real>(aCSg.m_polygons, m_tolerance);
+
+            if (aCSg.m_polygons.size() == 0)
+                return CCsgBoolean<Real>(this->m_polygons, m_tolerance);
+
             CCsgBspNode<Real> a(this->m_polygons, m_tolerance);
             CCsgBspNode<Real> b(aCSg.m_polygons, m_tolerance);
 
@@ -106,6 +113,10 @@ namespace ENigMA
         template <typename Real>
         CCsgBoolean<Real> CCsgBoolean<Real>::subtract(CCsgBoolean<Real> aCSg)
         {
+            // One of the solids may be empty
+            if (this->m_polygons.size() == 0 || aCSg.m_polygons.size() == 0)
+                return CCsgBoolean<Real>(this->m_polygons, m_tolerance);
+
             CCsgBspNode<Real> a(this->m_polygons, m_tolerance);
             CCsgBspNode<Real> b(aCSg.m_polygons, m_tolerance);
 
@@ -142,6 +153,10 @@ namespace ENigMA
         template <typename Real>
         CCsgBoolean<Real> CCsgBoolean<Real>::intersect(CCsgBoolean<Real> aCSg)
         {
+            // One of the solids may be empty
+            if (this->m_polygons.size() == 0 || aCSg.m_polygons.size() == 0)
+                return CCsgBoolean<Real>(m_tolerance);
+
             CCsgBspNode<Real> a(this->m_polygons, m_tolerance);
             CCsgBspNode<Real> b(aCSg.m_polygons, m_tolerance);
 
-- 
2.43.0


From c2a3ec553525709c9fbcb9e9d5e7a0cb77653f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 091/123] fix: CAnaFunction::evaluate with explicit variables
 erased the variables already defined and kept references to the given ones

---
 trunk/src/analytical/AnaFunction_Imp.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/trunk/src/analytical/AnaFunction_Imp.hpp b/trunk/src/analytical/AnaFunction_Imp.hpp
index f4c375f..1ceaed0 100644
--- a/trunk/src/analytical/AnaFunction_Imp.hpp
+++ b/trunk/src/analytical/AnaFunction_Imp.hpp
@@ -74,11 +74,13 @@ namespace ENigMA
             exprtk::expression<Real> expression;
             exprtk::parser<Real> parser;
 
-            m_symbolTable.clear();
+            // The given variables take precedence over the ones already defined, which are kept
+            exprtk::symbol_table<Real> symbolTable;
 
-            m_symbolTable.add_variable(aVariable, aValue);
+            symbolTable.add_variable(aVariable, aValue);
             m_symbolTable.add_constants();
 
+            expression.register_symbol_table(symbolTable);
             expression.register_symbol_table(m_symbolTable);
             parser.compile(m_expressionString, expression);
 
@@ -91,12 +93,14 @@ namespace ENigMA
             exprtk::expression<Real> expression;
             exprtk::parser<Real> parser;
 
-            m_symbolTable.clear();
+            // The given variables take precedence over the ones already defined, which are kept
+            exprtk::symbol_table<Real> symbolTable;
 
-            m_symbolTable.add_variable(aVariable1, aValue1);
-            m_symbolTable.add_variable(aVariable2, aValue2);
+            symbolTable.add_variable(aVariable1, aValue1);
+            symbolTable.add_variable(aVariable2, aValue2);
             m_symbolTable.add_constants();
 
+            expression.register_symbol_table(symbolTable);
             expression.register_symbol_table(m_symbolTable);
             parser.compile(m_expressionString, expression);
 
-- 
2.43.0


From fc87ec939842d767c48ac198bb12d2e42239544e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 092/123] fix: CAnaFunction::evaluate with explicit variables
 ignored constant functions

---
 trunk/src/analytical/AnaFunction_Imp.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trunk/src/analytical/AnaFunction_Imp.hpp b/trunk/src/analytical/AnaFunction_Imp.hpp
index 1ceaed0..8a03bcf 100644
--- a/trunk/src/analytical/AnaFunction_Imp.hpp
+++ b/trunk/src/analytical/AnaFunction_Imp.hpp
@@ -71,6 +71,9 @@ namespace ENigMA
         template <typename Real>
         Real CAnaFunction<Real>::evaluate(const std::string& aVariable, Real& aValue)
         {
+            if (m_constant)
+                return m_value;
+
             exprtk::expression<Real> expression;
             exprtk::parser<Real> parser;
 
@@ -90,6 +93,9 @@ namespace ENigMA
         template <typename Real>
         Real CAnaFunction<Real>::evaluate(const std::string& aVariable1, Real& aValue1, const std::string& aVariable2, Real& aValue2)
         {
+            if (m_constant)
+                return m_value;
+
             exprtk::expression<Real> expression;
             exprtk::parser<Real> parser;
 
-- 
2.43.0


From bb5c859a83220298440f1e9b1eeaadfccadacca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 093/123] fix: CAnaFunction::defineVariable ignored the
 redefinition of a variable

---
 trunk/src/analytical/AnaFunction_Imp.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trunk/src/analytical/AnaFunction_Imp.hpp b/trunk/src/analytical/AnaFunction_Imp.hpp
index 8a03bcf..e528360 100644
--- a/trunk/src/analytical/AnaFunction_Imp.hpp
+++ b/trunk/src/analytical/AnaFunction_Imp.hpp
@@ -43,7 +43,12 @@ namespace ENigMA
         }
 
         template <typename Real>
-        void CAnaFunction<Real>::defineVariable(const std::string& aVariable, Real& aValue) { m_symbolTable.add_variable(aVariable, aValue); }
+        void CAnaFunction<Real>::defineVariable(const std::string& aVariable, Real& aValue)
+        {
+            // Replace a previous definition
+            m_symbolTable.remove_variable(aVariable);
+            m_symbolTable.add_variable(aVariable, aValue);
+        }
 
         template <typename Real>
         void CAnaFunction<Real>::undefineVariable(const std::string& aVariable) { m_symbolTable.remove_variable(aVariable); }
-- 
2.43.0


From f4c927428a0030c9ed17524ccc06b0a46c104540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 094/123] fix: CAnaFunction::brent returned the wrong end for a
 root at an end of the interval and left the iteration count unset

---
 trunk/src/analytical/AnaFunction_Imp.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trunk/src/analytical/AnaFunction_Imp.hpp b/trunk/src/analytical/AnaFunction_Imp.hpp
index e528360..8b606e0 100644
--- a/trunk/src/analytical/AnaFunction_Imp.hpp
+++ b/trunk/src/analytical/AnaFunction_Imp.hpp
@@ -173,7 +173,9 @@ namespace ENigMA
             // if f(a) f(b) >= 0 then error-exit
             if (fa * fb >= 0)
             {
-                if (fa < fb)
+                nIterations = 0;
+
+                if (std::fabs(fa) < std::fabs(fb))
                     return a;
                 else
                     return b;
-- 
2.43.0


From e4a5f6c4a5f0904ef44a78f33dd267cfa0df41c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 095/123] fix: CAnaTemperature::transientHeatConduction3D
 ignored the sign of the third series

---
 trunk/src/analytical/AnaTemperature_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/analytical/AnaTemperature_Imp.hpp b/trunk/src/analytical/AnaTemperature_Imp.hpp
index bfdb1f6..aaa6c44 100644
--- a/trunk/src/analytical/AnaTemperature_Imp.hpp
+++ b/trunk/src/analytical/AnaTemperature_Imp.hpp
@@ -190,7 +190,7 @@ namespace ENigMA
                     {
                         Real lambda = alpha * pi * pi * ((2 * p + 1) * (2 * p + 1) + (2 * q + 1) * (2 * q + 1) + (2 * r + 1) * (2 * r + 1));
 
-                        T += 64.0 / (pi * pi * pi) * pow(-1.0, p + q) / ((2 * p + 1) * (2 * q + 1) * (2 * r + 1)) * cos((2 * p + 1) * pi * x) * cos((2 * q + 1) * pi * y) * cos((2 * r + 1) * pi * z) * exp(-lambda * t);
+                        T += 64.0 / (pi * pi * pi) * pow(-1.0, p + q + r) / ((2 * p + 1) * (2 * q + 1) * (2 * r + 1)) * cos((2 * p + 1) * pi * x) * cos((2 * q + 1) * pi * y) * cos((2 * r + 1) * pi * z) * exp(-lambda * t);
                     }
                 }
             }
-- 
2.43.0


From ca01763e3294be062175c354ac282f3615d57cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 096/123] fix: CAnaTemperature::steadyStateHeatConduction1D
 with convection cancelled or overflowed for long beams and failed without
 convection

---
 trunk/src/analytical/AnaTemperature_Imp.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/trunk/src/analytical/AnaTemperature_Imp.hpp b/trunk/src/analytical/AnaTemperature_Imp.hpp
index aaa6c44..a6e4253 100644
--- a/trunk/src/analytical/AnaTemperature_Imp.hpp
+++ b/trunk/src/analytical/AnaTemperature_Imp.hpp
@@ -96,10 +96,17 @@ namespace ENigMA
 
             Real m = sqrt(h * perimeter / (k * sectionArea));
 
-            Real c1 = -(exp(m * length) * Tb - exp(2 * m * length) * Ta + Tinf * exp(2 * m * length) - Tinf * exp(m * length)) / expm1(2 * m * length);
-            Real c2 = (Ta - Tinf) - c1;
+            // sinh(m * (length - x)) / sinh(m * length) and sinh(m * x) / sinh(m * length), without overflow or cancellation
+            Real ra = 1.0 - x / length;
+            Real rb = x / length;
 
-            T = Tinf + c1 * exp(-m * x) + c2 * exp(m * x);
+            if (m * length > 0.0)
+            {
+                ra = exp(-m * x) * expm1(-2 * m * (length - x)) / expm1(-2 * m * length);
+                rb = exp(-m * (length - x)) * expm1(-2 * m * x) / expm1(-2 * m * length);
+            }
+
+            T = Tinf + (Ta - Tinf) * ra + (Tb - Tinf) * rb;
         }
 
         template <typename Real>
-- 
2.43.0


From 173b513d3b2c0dc6a5f27cbf209db8f5c3deede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 097/123] fix:
 CAnaTemperature::steadyStateHeatConvectionRadiation1D evaluated an equation
 with undefined variables

---
 trunk/src/analytical/AnaTemperature_Imp.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/trunk/src/analytical/AnaTemperature_Imp.hpp b/trunk/src/analytical/AnaTemperature_Imp.hpp
index a6e4253..b8ff727 100644
--- a/trunk/src/analytical/AnaTemperature_Imp.hpp
+++ b/trunk/src/analytical/AnaTemperature_Imp.hpp
@@ -119,23 +119,23 @@ namespace ENigMA
 
             // Tinf = 0
 
-            Real G, M, x1, Tb1;
+            Real G, M;
 
             G = 2.0 / 3.0 * perimeter * e * sigma / (k * sectionArea);
             M = h * perimeter / (k * sectionArea);
-            x1 = x;
-            Tb1 = Tb;
 
-            CAnaFunction<Real>::defineVariable("G", G);
-            CAnaFunction<Real>::defineVariable("M", M);
-            CAnaFunction<Real>::defineVariable("x1", x1);
-            CAnaFunction<Real>::defineVariable("Tb1", Tb1);
+            CAnaFunction<Real> aFunction;
 
-            CAnaFunction<Real>::set("1/3*M^(-1/2)*(ln(((G*Tb^3+M)^(1/2)-M^(1/2))/((G*Tb^3+M)^(1/2)+M^(1/2)))-ln(((G*T^3+M)^(1/2)-M^(1/2))/((G*T^3+M)^(1/2)+M^(1/2))))-x");
+            aFunction.defineVariable("G", G);
+            aFunction.defineVariable("M", M);
+            aFunction.defineVariable("x", x);
+            aFunction.defineVariable("Tb", Tb);
+
+            aFunction.set("1/3*M^(-1/2)*(ln(((G*Tb^3+M)^(1/2)-M^(1/2))/((G*Tb^3+M)^(1/2)+M^(1/2)))-ln(((G*T^3+M)^(1/2)-M^(1/2))/((G*T^3+M)^(1/2)+M^(1/2))))-x");
 
             Integer nIter;
 
-            T = CAnaFunction<Real>::root("T", 1E-12, Tb, nIter, 100, 1E-12);
+            T = aFunction.root("T", 1E-12, Tb, nIter, 100, 1E-12);
         }
 
         template <typename Real>
-- 
2.43.0


From e3d94a8bcff5c957c03fc244d698b5f3e7f0e01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 098/123] fix:
 CAnaTemperature::steadyStateHeatConvectionRadiation1D used a wrong radiation
 coefficient

---
 trunk/src/analytical/AnaTemperature_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/analytical/AnaTemperature_Imp.hpp b/trunk/src/analytical/AnaTemperature_Imp.hpp
index b8ff727..0a4e51e 100644
--- a/trunk/src/analytical/AnaTemperature_Imp.hpp
+++ b/trunk/src/analytical/AnaTemperature_Imp.hpp
@@ -121,7 +121,7 @@ namespace ENigMA
 
             Real G, M;
 
-            G = 2.0 / 3.0 * perimeter * e * sigma / (k * sectionArea);
+            G = 2.0 / 5.0 * perimeter * e * sigma / (k * sectionArea);
             M = h * perimeter / (k * sectionArea);
 
             CAnaFunction<Real> aFunction;
-- 
2.43.0


From 4c378230a5dc11d3bdede37d125032e354a7fe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 099/123] fix:
 CAnaTemperature::steadyStateHeatConvectionRadiation1D used a function name
 that expressions do not know

---
 trunk/src/analytical/AnaTemperature_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/analytical/AnaTemperature_Imp.hpp b/trunk/src/analytical/AnaTemperature_Imp.hpp
index 0a4e51e..b51a49f 100644
--- a/trunk/src/analytical/AnaTemperature_Imp.hpp
+++ b/trunk/src/analytical/AnaTemperature_Imp.hpp
@@ -131,7 +131,7 @@ namespace ENigMA
             aFunction.defineVariable("x", x);
             aFunction.defineVariable("Tb", Tb);
 
-            aFunction.set("1/3*M^(-1/2)*(ln(((G*Tb^3+M)^(1/2)-M^(1/2))/((G*Tb^3+M)^(1/2)+M^(1/2)))-ln(((G*T^3+M)^(1/2)-M^(1/2))/((G*T^3+M)^(1/2)+M^(1/2))))-x");
+            aFunction.set("1/3*M^(-1/2)*(log(((G*Tb^3+M)^(1/2)-M^(1/2))/((G*Tb^3+M)^(1/2)+M^(1/2)))-log(((G*T^3+M)^(1/2)-M^(1/2))/((G*T^3+M)^(1/2)+M^(1/2))))-x");
 
             Integer nIter;
 
-- 
2.43.0


From 2bfb34afd4c4b6a79f9bd1d98ae609b137755cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 100/123] fix: CFvmPisoSolver: inner face fluxes depended on
 the order of the control volumes

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index c50501b..df1d4cc 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -424,9 +424,11 @@ namespace ENigMA
                             A.coeffRef(anIndexP, anIndexP) += -1.0 / (apj * dist) * area;
                             A.coeffRef(anIndexP, anIndexN) += +1.0 / (apj * dist) * area;
 
-                            m_flux[aFaceId] = -Hf / apj * area;
+                            // The flux of a face is outward of its first control volume
+                            if (m_fvmMesh.face(aFaceId).controlVolumeId() == aControlVolumeId)
+                                m_flux[aFaceId] = Hf / apj * area;
 
-                            b[anIndexP] -= m_flux.at(aFaceId);
+                            b[anIndexP] += Hf / apj * area;
                         }
                     }
                     else
-- 
2.43.0


From 46fc2a9f82a8650fe6ed80af88f8ddcf3116cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 101/123] fix: CFvmPisoSolver: boundary fluxes had the opposite
 direction of inner ones and lagged the velocities

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 32 +++++++++++++------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index df1d4cc..56f707e 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -447,9 +447,9 @@ namespace ENigMA
 
                             // specified flux
                             // pressure gradient = 0
-                            b[anIndexP] -= m_flux.at(aFaceId);
+                            m_flux[aFaceId] = (m_uf[aFaceId] * aNormal.x() + m_vf[aFaceId] * aNormal.y() + m_wf[aFaceId] * aNormal.z()) * area;
 
-                            m_flux[aFaceId] = -(m_uf[aFaceId] * aNormal.x() + m_vf[aFaceId] * aNormal.y() + m_wf[aFaceId] * aNormal.z()) * area;
+                            b[anIndexP] += m_flux.at(aFaceId);
                         }
                         else if (m_fvmMesh.face(aFaceId).boundaryType() == BT_INLET_PRESSURE)
                         {
@@ -460,13 +460,9 @@ namespace ENigMA
                             A.coeffRef(anIndexP, anIndexP) += -1.0 / (apj * dist) * area;
                             b[anIndexP] += -1.0 / (apj * dist) * area * m_pf.at(aFaceId);
 
-                            m_flux[aFaceId] = -Hf / apj * area;
+                            m_flux[aFaceId] = Hf / apj * area;
 
-                            b[anIndexP] -= m_flux.at(aFaceId);
-
-                            m_uf[aFaceId] = -m_flux[aFaceId] / area * aNormal.x();
-                            m_vf[aFaceId] = -m_flux[aFaceId] / area * aNormal.y();
-                            m_wf[aFaceId] = -m_flux[aFaceId] / area * aNormal.z();
+                            b[anIndexP] += m_flux.at(aFaceId);
                         }
                         else if (m_fvmMesh.face(aFaceId).boundaryType() == BT_OUTLET)
                         {
@@ -476,13 +472,9 @@ namespace ENigMA
 
                             A.coeffRef(anIndexP, anIndexP) += -1.0 / (apj * dist) * area;
 
-                            m_flux[aFaceId] = -Hf / apj * area;
-
-                            b[anIndexP] -= m_flux.at(aFaceId);
+                            m_flux[aFaceId] = Hf / apj * area;
 
-                            m_uf[aFaceId] = -m_flux[aFaceId] / area * aNormal.x();
-                            m_vf[aFaceId] = -m_flux[aFaceId] / area * aNormal.y();
-                            m_wf[aFaceId] = -m_flux[aFaceId] / area * aNormal.z();
+                            b[anIndexP] += m_flux.at(aFaceId);
                         }
                     }
                 }
@@ -518,6 +510,8 @@ namespace ENigMA
 
                     Integer aFaceId = m_fvmMesh.controlVolume(aControlVolumeId).faceId(j);
 
+                    CGeoNormal<Real>& aNormal = m_fvmMesh.controlVolume(aControlVolumeId).faceNormal(aFaceId);
+
                     Real area = m_fvmMesh.controlVolume(aControlVolumeId).faceArea(aFaceId);
                     Real dist = m_fvmMesh.controlVolume(aControlVolumeId).faceDist(aFaceId).norm();
 
@@ -559,12 +553,20 @@ namespace ENigMA
                         else if (m_fvmMesh.face(aFaceId).boundaryType() == BT_INLET_PRESSURE)
                         {
 
-                            m_flux[aFaceId] += area / (apj * dist) * (m_pf[aFaceId] - m_p.at(aControlVolumeId));
+                            m_flux[aFaceId] -= area / (apj * dist) * (m_pf[aFaceId] - m_p.at(aControlVolumeId));
+
+                            m_uf[aFaceId] = m_flux[aFaceId] / area * aNormal.x();
+                            m_vf[aFaceId] = m_flux[aFaceId] / area * aNormal.y();
+                            m_wf[aFaceId] = m_flux[aFaceId] / area * aNormal.z();
                         }
                         else if (m_fvmMesh.face(aFaceId).boundaryType() == BT_OUTLET)
                         {
 
                             m_flux[aFaceId] += area / (apj * dist) * m_p.at(aControlVolumeId);
+
+                            m_uf[aFaceId] = m_flux[aFaceId] / area * aNormal.x();
+                            m_vf[aFaceId] = m_flux[aFaceId] / area * aNormal.y();
+                            m_wf[aFaceId] = m_flux[aFaceId] / area * aNormal.z();
                             m_pf[aFaceId] = 0.0;
                         }
                     }
-- 
2.43.0


From c4d78fbf3a69d70151b0473278f0757c28b6acc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 102/123] fix: CFvmPisoSolver: boundary convection in the
 momentum equations was scaled by the area twice

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index 56f707e..f5fb1d2 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -237,8 +237,6 @@ namespace ENigMA
                     Real dens = m_dens.at(aControlVolumeId);
                     Real visc = m_visc.at(aControlVolumeId);
 
-                    CGeoNormal<Real>& aNormal = m_fvmMesh.controlVolume(aControlVolumeId).faceNormal(aFaceId);
-
                     Real area = m_fvmMesh.controlVolume(aControlVolumeId).faceArea(aFaceId);
                     Real dist = m_fvmMesh.controlVolume(aControlVolumeId).faceDist(aFaceId).norm();
 
@@ -294,9 +292,9 @@ namespace ENigMA
                         bw[anIndexP] += visc * m_wf[aFaceId] * area / dist / volume;
 
                         // Convection
-                        bu[anIndexP] += -dens * m_uf[aFaceId] * area * flux * aNormal.x() / volume;
-                        bv[anIndexP] += -dens * m_vf[aFaceId] * area * flux * aNormal.y() / volume;
-                        bw[anIndexP] += -dens * m_wf[aFaceId] * area * flux * aNormal.z() / volume;
+                        bu[anIndexP] += -dens * m_uf[aFaceId] * flux / volume;
+                        bv[anIndexP] += -dens * m_vf[aFaceId] * flux / volume;
+                        bw[anIndexP] += -dens * m_wf[aFaceId] * flux / volume;
                     }
                 }
 
-- 
2.43.0


From 2fa4ea90bb71ace3fa550fd9dde059c58457d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 103/123] fix: CFvmPisoSolver: pressure gradient had the wrong
 sign in the momentum predictor

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index f5fb1d2..9a1319c 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -306,9 +306,9 @@ namespace ENigMA
                 // Source - pressure
                 CGeoVector<Real> gradp = this->gradient(m_p, m_pf, aControlVolumeId);
 
-                bu[anIndexP] += gradp.x();
-                bv[anIndexP] += gradp.y();
-                bw[anIndexP] += gradp.z();
+                bu[anIndexP] -= gradp.x();
+                bv[anIndexP] -= gradp.y();
+                bw[anIndexP] -= gradp.z();
 
                 if (m_dt > 0.0)
                 {
@@ -337,9 +337,9 @@ namespace ENigMA
 
                 CGeoVector<Real> gradp = this->gradient(m_p, m_pf, aControlVolumeId);
 
-                m_Hu[aControlVolumeId] = bu[k] - gradp.x();
-                m_Hv[aControlVolumeId] = bv[k] - gradp.y();
-                m_Hw[aControlVolumeId] = bw[k] - gradp.z();
+                m_Hu[aControlVolumeId] = bu[k] + gradp.x();
+                m_Hv[aControlVolumeId] = bv[k] + gradp.y();
+                m_Hw[aControlVolumeId] = bw[k] + gradp.z();
 
                 for (typename Eigen::SparseMatrix<Real>::InnerIterator it(A, k); it; ++it)
                 {
-- 
2.43.0


From abcbeb93ccf5e1b616176081ae9f69aa3f6892b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 104/123] fix: CFvmPisoSolver: H was computed with the
 transposed momentum matrix

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index 9a1319c..9b58b66 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -340,10 +340,16 @@ namespace ENigMA
                 m_Hu[aControlVolumeId] = bu[k] + gradp.x();
                 m_Hv[aControlVolumeId] = bv[k] + gradp.y();
                 m_Hw[aControlVolumeId] = bw[k] + gradp.z();
+            }
+
+            for (int k = 0; k < A.outerSize(); ++k)
+            {
 
                 for (typename Eigen::SparseMatrix<Real>::InnerIterator it(A, k); it; ++it)
                 {
 
+                    Integer aControlVolumeId = m_mapIndexToId.at(it.row());
+
                     if (it.row() == it.col())
                         m_ap[aControlVolumeId] = it.value();
                     else
-- 
2.43.0


From 12ca4277d25124ad3569a158a3ae82f1fb887658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 105/123] fix: CFvmPisoSolver: correctPressureField shifted
 prescribed pressures

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index 9b58b66..b3b8008 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -599,6 +599,16 @@ namespace ENigMA
         void CFvmPisoSolver<Real>::correctPressureField()
         {
 
+            // Prescribed pressures determine the level
+            for (Integer i = 0; i < m_fvmMesh.nbFaces(); ++i)
+            {
+
+                Integer aFaceId = m_fvmMesh.faceId(i);
+
+                if (m_fvmMesh.face(aFaceId).boundaryType() == BT_INLET_PRESSURE || m_fvmMesh.face(aFaceId).boundaryType() == BT_OUTLET)
+                    return;
+            }
+
             Real p_min = std::numeric_limits<Real>::max();
 
             for (Integer i = 0; i < m_fvmMesh.nbControlVolumes(); ++i)
-- 
2.43.0


From 418458c6ebdc508e467f6449586d11b9cbca463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 106/123] fix: CFvmPisoSolver: pressure equation of closed
 domains was singular

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index b3b8008..4ada5ba 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -375,6 +375,8 @@ namespace ENigMA
             b.resize(m_fvmMesh.nbControlVolumes());
             b.setZero();
 
+            bool bPressureLevel = false;
+
             // Assemble pressure matrix
             for (Integer i = 0; i < m_fvmMesh.nbControlVolumes(); ++i)
             {
@@ -460,6 +462,7 @@ namespace ENigMA
 
                             // specified pressure
                             // velocity gradient = 0
+                            bPressureLevel = true;
 
                             A.coeffRef(anIndexP, anIndexP) += -1.0 / (apj * dist) * area;
                             b[anIndexP] += -1.0 / (apj * dist) * area * m_pf.at(aFaceId);
@@ -473,6 +476,7 @@ namespace ENigMA
 
                             // specified pressure = 0
                             // velocity gradient = 0
+                            bPressureLevel = true;
 
                             A.coeffRef(anIndexP, anIndexP) += -1.0 / (apj * dist) * area;
 
@@ -484,6 +488,10 @@ namespace ENigMA
                 }
             }
 
+            // Without prescribed pressures only differences are determined, fix the level at one control volume
+            if (!bPressureLevel && m_fvmMesh.nbControlVolumes() > 1)
+                A.coeffRef(0, 0) *= 2.0;
+
             A.finalize();
 
             Eigen::ConjugateGradient<Eigen::SparseMatrix<Real>> solver;
-- 
2.43.0


From b0b1cd0a6ad742ab8014e7ad9b6acbcb82b8186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 107/123] fix: CFvmTemperatureSolver: boundary source of
 conduction was divided by the volume

---
 trunk/src/solvers/FvmTemperatureSolver_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp b/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
index 807ec14..38f91c5 100644
--- a/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
@@ -156,7 +156,7 @@ namespace ENigMA
 
                         // Conduction
                         A.coeffRef(anIndexP, anIndexP) += thcond * area / dist;
-                        b[anIndexP] += thcond * area / dist / volume * m_Tf.at(aFaceId);
+                        b[anIndexP] += thcond * area / dist * m_Tf.at(aFaceId);
 
                         // Convection
                         Real xsi;
-- 
2.43.0


From a6654020116449f8691d8a04d8f856977a418822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 108/123] fix: CFvmTemperatureSolver: conductivity at
 boundaries was averaged with a constant

---
 trunk/src/solvers/FvmTemperatureSolver_Imp.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp b/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
index 38f91c5..6c818c9 100644
--- a/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
@@ -151,9 +151,6 @@ namespace ENigMA
                     }
                     else
                     {
-                        thcond += m_bthcond;
-                        thcond *= 0.5;
-
                         // Conduction
                         A.coeffRef(anIndexP, anIndexP) += thcond * area / dist;
                         b[anIndexP] += thcond * area / dist * m_Tf.at(aFaceId);
-- 
2.43.0


From 2e4cada96d041c4241b714b4b9ef942cefb7171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 109/123] fix: CMshQuadrilateralMesher: quadrilaterals could
 contain an edge of the front as diagonal

---
 trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp b/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
index 3a73f25..d27ca38 100644
--- a/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
+++ b/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
@@ -770,6 +770,22 @@ namespace ENigMA
                     if (q3 > q3max)
                         q3 += this->edgeOk(anAdvEdge, aNewNode1, aNewNode2, sEdges, aTolerance) ? 0.0 : -2.0;
 
+                    // An edge of the front must not be a diagonal
+                    for (Integer j = 0; j < static_cast<Integer>(sEdges.size()) && q3 > q3max; ++j)
+                    {
+                        SMshAdvancingFrontEdge<Real>& anotherEdge = this->m_anAdvFront.at(sEdges[j]);
+
+                        if (anotherEdge.remove)
+                            continue;
+
+                        if ((anotherEdge.nodeId[0] == aNodeId1 && anotherEdge.nodeId[1] == aNewNodeId2) || (anotherEdge.nodeId[0] == aNewNodeId2 && anotherEdge.nodeId[1] == aNodeId1))
+                            q3 -= 2.0;
+
+                        if ((anotherEdge.nodeId[0] == aNodeId2 && anotherEdge.nodeId[1] == aNewNodeId1) || (anotherEdge.nodeId[0] == aNewNodeId1 && anotherEdge.nodeId[1] == aNodeId2))
+                            q3 -= 2.0;
+                    }
+
+
                     if (q3 > q3max)
                     {
                         Integer wNodeId;
-- 
2.43.0


From ea0e399d374afdb6c33f219b47e682646d682545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 110/123] fix: CMshQuadrilateralMesher: four front edges were
 closed whatever their direction and contents

---
 trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp | 39 +++++++++++++++++--
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp b/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
index d27ca38..4b64c70 100644
--- a/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
+++ b/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
@@ -582,11 +582,42 @@ namespace ENigMA
                 // Priority = 3: other nodes in vicinity (3, 4, other node)
                 // Priority = 4: new node forming correct spacing
 
-                if ((aNodeId3 == aNodeId5 && aNodeId4 == aNodeId6) || (aNodeId3 == aNodeId6 && aNodeId4 == aNodeId5))
+                if (aNodeId3 == aNodeId6 && aNodeId4 == aNodeId5)
                 {
-                    this->addQuadrilateral(anAdvEdge, aNodeId3, aNodeId4, sEdges, aTolerance);
-                    res = true;
-                    continue;
+                    CMshNode<Real>& aNode3 = this->m_surfaceMesh.node(aNodeId3);
+                    CMshNode<Real>& aNode4 = this->m_surfaceMesh.node(aNodeId4);
+
+                    aNewQuadrilateral3.reset();
+
+                    aNewQuadrilateral3.addVertex(aNode1);
+                    aNewQuadrilateral3.addVertex(aNode2);
+                    aNewQuadrilateral3.addVertex(aNode4);
+                    aNewQuadrilateral3.addVertex(aNode3);
+
+                    aNewQuadrilateral3.calculateArea();
+
+                    if (aNewQuadrilateral3.normal().z() > aTolerance)
+                    {
+                        std::vector<Integer> sFrontNodes;
+
+                        for (Integer j = 0; j < static_cast<Integer>(sEdges.size()); ++j)
+                        {
+                            if (this->m_anAdvFront.at(sEdges[j]).remove)
+                                continue;
+
+                            sFrontNodes.emplace_back(this->m_anAdvFront.at(sEdges[j]).nodeId[0]);
+                            sFrontNodes.emplace_back(this->m_anAdvFront.at(sEdges[j]).nodeId[1]);
+                        }
+
+                        Integer wNodeId;
+
+                        if (!this->quadrilateralContainsNode(aNode1, aNode2, aNode4, aNode3, wNodeId, sFrontNodes, aTolerance))
+                        {
+                            this->addQuadrilateral(anAdvEdge, aNodeId3, aNodeId4, sEdges, aTolerance);
+                            res = true;
+                            continue;
+                        }
+                    }
                 }
 
                 if (aNodeId3 == aNodeId4)
-- 
2.43.0


From ced7b9321ac23067336c865695c5e94f28cf1afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 111/123] fix: CMshQuadrilateralMesher: existing nodes were
 moved when new nodes were adjusted

---
 trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp b/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
index 4b64c70..29f3753 100644
--- a/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
+++ b/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
@@ -851,7 +851,7 @@ namespace ENigMA
                     this->addQuadrilateral(anAdvEdge, aNewNodeId1, aNewNodeId2, sEdges, aTolerance);
                     res = true;
                 }
-                else if (bAddNodes)
+                else if (bAddNodes && aNewNodeId1 == this->m_surfaceMesh.nextNodeId() + 0 && aNewNodeId2 == this->m_surfaceMesh.nextNodeId() + 1)
                 {
                     aLine1.reset();
                     aLine1.setStartPoint(aMidNode);
-- 
2.43.0


From c3e9d3f03ca8b28da14132eb486e557fdbfdb6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 112/123] fix: CMshQuadrilateralMesher::relaxNodes checked only
 three corners of quadrilaterals

---
 trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp | 76 ++++++++++---------
 1 file changed, 41 insertions(+), 35 deletions(-)

diff --git a/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp b/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
index 29f3753..3f1bbcf 100644
--- a/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
+++ b/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
@@ -1221,7 +1221,7 @@ namespace ENigMA
                         {
                             if (aNextElement.faceId(k) == aNextPairFaceId)
                             {
-                                aNextFaceId = aNextElement.faceId((k + 1) % 3);
+                                aNextFaceId = aNextElement.faceId((k + 1) % aNextElement.nbFaceIds());
                                 break;
                             }
                         }
@@ -1253,55 +1253,61 @@ namespace ENigMA
                         {
                             CMshElement<Real>& aModElement = aMesh.element(sElements[k]);
 
-                            Integer aNodeId1 = aModElement.nodeId(0);
-                            Integer aNodeId2 = aModElement.nodeId(1);
-                            Integer aNodeId3 = aModElement.nodeId(2);
+                            // Every corner of a quadrilateral, a triangle is the same from each one
+                            Integer nbCorners = (aModElement.elementType() == ET_TRIANGLE) ? 1 : aModElement.nbNodeIds();
 
-                            CMshNode<Real>& aNode1 = aMesh.node(aNodeId1);
-                            CMshNode<Real>& aNode2 = aMesh.node(aNodeId2);
-                            CMshNode<Real>& aNode3 = aMesh.node(aNodeId3);
+                            for (Integer l = 0; l < nbCorners && bMoveNode; ++l)
+                            {
+                                Integer aNodeId1 = aModElement.nodeId(l);
+                                Integer aNodeId2 = aModElement.nodeId((l + 1) % aModElement.nbNodeIds());
+                                Integer aNodeId3 = aModElement.nodeId((l + 2) % aModElement.nbNodeIds());
 
-                            CGeoCoordinate<Real> aVertex1 = aNode1;
-                            CGeoCoordinate<Real> aVertex2 = aNode2;
-                            CGeoCoordinate<Real> aVertex3 = aNode3;
+                                CMshNode<Real>& aNode1 = aMesh.node(aNodeId1);
+                                CMshNode<Real>& aNode2 = aMesh.node(aNodeId2);
+                                CMshNode<Real>& aNode3 = aMesh.node(aNodeId3);
 
-                            CMshTriangle<Real> aTriangle1;
+                                CGeoCoordinate<Real> aVertex1 = aNode1;
+                                CGeoCoordinate<Real> aVertex2 = aNode2;
+                                CGeoCoordinate<Real> aVertex3 = aNode3;
 
-                            aTriangle1.addVertex(aVertex1);
-                            aTriangle1.addVertex(aVertex2);
-                            aTriangle1.addVertex(aVertex3);
+                                CMshTriangle<Real> aTriangle1;
 
-                            aTriangle1.calculateQuality();
+                                aTriangle1.addVertex(aVertex1);
+                                aTriangle1.addVertex(aVertex2);
+                                aTriangle1.addVertex(aVertex3);
 
-                            Real q1 = aTriangle1.quality();
+                                aTriangle1.calculateQuality();
 
-                            if (aNodeId1 == aPivotNodeId)
-                                aVertex1 = aMshNode;
+                                Real q1 = aTriangle1.quality();
 
-                            if (aNodeId2 == aPivotNodeId)
-                                aVertex2 = aMshNode;
+                                if (aNodeId1 == aPivotNodeId)
+                                    aVertex1 = aMshNode;
 
-                            if (aNodeId3 == aPivotNodeId)
-                                aVertex3 = aMshNode;
+                                if (aNodeId2 == aPivotNodeId)
+                                    aVertex2 = aMshNode;
 
-                            CMshTriangle<Real> aTriangle2;
+                                if (aNodeId3 == aPivotNodeId)
+                                    aVertex3 = aMshNode;
 
-                            aTriangle2.addVertex(aVertex1);
-                            aTriangle2.addVertex(aVertex2);
-                            aTriangle2.addVertex(aVertex3);
+                                CMshTriangle<Real> aTriangle2;
 
-                            aTriangle2.calculateArea();
-                            aTriangle2.calculateQuality();
+                                aTriangle2.addVertex(aVertex1);
+                                aTriangle2.addVertex(aVertex2);
+                                aTriangle2.addVertex(aVertex3);
 
-                            Real q2 = aTriangle2.quality();
+                                aTriangle2.calculateArea();
+                                aTriangle2.calculateQuality();
 
-                            sumq1 += q1;
-                            sumq2 += q2;
+                                Real q2 = aTriangle2.quality();
 
-                            if (aTriangle2.normal().z() < aTolerance)
-                            {
-                                bMoveNode = false;
-                                break;
+                                sumq1 += q1;
+                                sumq2 += q2;
+
+                                if (aTriangle2.normal().z() <= aTolerance)
+                                {
+                                    bMoveNode = false;
+                                    break;
+                                }
                             }
                         }
 
-- 
2.43.0


From 1ba475852095fb8615ab1597b00fea405320462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 113/123] fix: CMshTriangleMesher::relaxNodes inverted
 quadrilaterals of mixed meshes

---
 trunk/src/mesh/MshTriangleMesher_Imp.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trunk/src/mesh/MshTriangleMesher_Imp.hpp b/trunk/src/mesh/MshTriangleMesher_Imp.hpp
index 51f96c1..9c0644f 100644
--- a/trunk/src/mesh/MshTriangleMesher_Imp.hpp
+++ b/trunk/src/mesh/MshTriangleMesher_Imp.hpp
@@ -1441,6 +1441,13 @@ namespace ENigMA
                     {
                         CMshElement<Real>& aModElement = aMesh.element(sElementIds[k]);
 
+                        // The shape of other surface elements is not checked, keep their nodes
+                        if (aModElement.elementType() == ET_QUADRILATERAL)
+                        {
+                            bMoveNode = false;
+                            break;
+                        }
+
                         if (aModElement.elementType() != ET_TRIANGLE)
                             continue;
 
-- 
2.43.0


From c11c76fa1c0a1fc49bd9c969ba41d236e3d14c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 114/123] fix: CMshTriangleMesher, CMshQuadrilateralMesher:
 interior points of a previous mesh were used again

---
 trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp | 2 ++
 trunk/src/mesh/MshTriangleMesher_Imp.hpp      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp b/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
index 3f1bbcf..7c5e89f 100644
--- a/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
+++ b/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
@@ -405,6 +405,8 @@ namespace ENigMA
             }
 
             // Add interior nodes
+            this->m_interiorNodes.clear();
+
             for (Integer i = 0; i < static_cast<Integer>(sInteriorPoints.size()); ++i)
             {
                 Integer aNewNodeId = this->m_surfaceMesh.nextNodeId();
diff --git a/trunk/src/mesh/MshTriangleMesher_Imp.hpp b/trunk/src/mesh/MshTriangleMesher_Imp.hpp
index 9c0644f..20ac1b3 100644
--- a/trunk/src/mesh/MshTriangleMesher_Imp.hpp
+++ b/trunk/src/mesh/MshTriangleMesher_Imp.hpp
@@ -801,6 +801,8 @@ namespace ENigMA
             }
 
             // Add interior nodes
+            m_interiorNodes.clear();
+
             SNode<Real> anInteriorNode;
 
             for (Integer i = 0; i < static_cast<Integer>(sInteriorPoints.size()); ++i)
-- 
2.43.0


From 9674fb1bf3678fdd22e070af977e6f256307b804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 115/123] fix: CMshTriangleMesher::remesh used element numbers
 as positions

---
 trunk/src/mesh/MshTriangleMesher_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/mesh/MshTriangleMesher_Imp.hpp b/trunk/src/mesh/MshTriangleMesher_Imp.hpp
index 20ac1b3..84cb929 100644
--- a/trunk/src/mesh/MshTriangleMesher_Imp.hpp
+++ b/trunk/src/mesh/MshTriangleMesher_Imp.hpp
@@ -468,10 +468,10 @@ namespace ENigMA
         {
             Real x, y;
 
-            std::vector<bool> sRemeshed;
+            std::map<Integer, bool> sRemeshed;
             for (Integer i = 0; i < aMesh.nbElements(); ++i)
             {
-                sRemeshed.emplace_back(false);
+                sRemeshed[aMesh.elementId(i)] = false;
             }
 
             // Split edge mesh according to local mesh size
-- 
2.43.0


From 6e8d5ea7e0373f92619008184dc7b2da84dff844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 116/123] fix: the tetrahedron mesher forgets the interior
 points of an earlier mesh

---
 trunk/src/mesh/MshTetrahedronMesher_Imp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp b/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
index 06282dd..ea08141 100644
--- a/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
+++ b/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
@@ -630,6 +630,8 @@ namespace ENigMA
             }
 
             // Add interior nodes
+            m_innerNodes.clear();
+
             SNode<Real> anInteriorNode;
 
             for (Integer i = 0; i < static_cast<Integer>(sInteriorPoints.size()); ++i)
-- 
2.43.0


From 23417c64fe85fe3bdf8b46189a103b1cdc8041a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 117/123] fix: interior points freed by a repair are used again
 by the tetrahedron mesher

---
 trunk/src/mesh/MshTetrahedronMesher_Imp.hpp | 22 +++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp b/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
index ea08141..bf64258 100644
--- a/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
+++ b/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
@@ -1321,6 +1321,28 @@ namespace ENigMA
             for (Integer i = 0; i < static_cast<Integer>(sElementsToRemove.size()); ++i)
                 m_volumeMesh.removeElement(sElementsToRemove[i]);
 
+            // Interior nodes which no longer belong to an element are available again
+            for (Integer k = 0; k < static_cast<Integer>(m_innerNodes.size()); ++k)
+            {
+                bool bUsed = false;
+
+                for (Integer i = 0; i < m_volumeMesh.nbElements() && !bUsed; ++i)
+                {
+                    const CMshElement<Real>& anElement = m_volumeMesh.element(m_volumeMesh.elementId(i));
+
+                    for (Integer j = 0; j < anElement.nbNodeIds(); ++j)
+                    {
+                        if (anElement.nodeId(j) == m_innerNodes[k].nodeId)
+                        {
+                            bUsed = true;
+                            break;
+                        }
+                    }
+                }
+
+                m_innerNodes[k].remove = bUsed;
+            }
+
             return true;
         }
 
-- 
2.43.0


From bf735868ddf6e8e9015908b49106b19d83623086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 118/123] fix: 3-2 flips treat the edge actually shared by the
 three tetrahedra

---
 trunk/src/mesh/MshTetrahedronMesher_Imp.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp b/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
index bf64258..6566489 100644
--- a/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
+++ b/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
@@ -1795,6 +1795,23 @@ namespace ENigMA
 
                         if (sElementIds.size() == 3)
                         {
+                            if (sFlipped.at(sElementIds[0]) || sFlipped.at(sElementIds[1]) || sFlipped.at(sElementIds[2]))
+                                continue;
+
+                            // Order the nodes so that the shared edge is the one between nodes 3 and 4
+                            static const Integer order[6][4] = { { 0, 1, 2, 3 }, { 2, 3, 0, 1 }, { 0, 2, 3, 1 }, { 0, 3, 1, 2 }, { 1, 2, 0, 3 }, { 3, 1, 0, 2 } };
+
+                            for (Integer l = 0; l < 6; l++)
+                            {
+                                aNodeId1 = anElement.nodeId(order[l][0]);
+                                aNodeId2 = anElement.nodeId(order[l][1]);
+                                aNodeId3 = anElement.nodeId(order[l][2]);
+                                aNodeId4 = anElement.nodeId(order[l][3]);
+
+                                if (aNodeId1 != aFace.nodeId((k + 0) % 3) && aNodeId1 != aFace.nodeId((k + 1) % 3) && aNodeId2 != aFace.nodeId((k + 0) % 3) && aNodeId2 != aFace.nodeId((k + 1) % 3))
+                                    break;
+                            }
+
                             Integer aNodeId5;
 
                             bool bNodeFound = false;
-- 
2.43.0


From f5189b99934f22ae77abbcb08e81b0ced185c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 119/123] fix: tetrahedra are relaxed towards their
 volume-weighted centroid

---
 trunk/src/mesh/MshTetrahedronMesher_Imp.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp b/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
index 6566489..87f8b43 100644
--- a/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
+++ b/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
@@ -1434,13 +1434,17 @@ namespace ENigMA
 
                     aTetrahedron.calculateVolume();
 
-                    aNewNode += aNode1;
-                    aNewNode += aNode2;
-                    aNewNode += aNode3;
-                    aNewNode += aNode4;
-                    aNewNode /= 4.0;
+                    CMshNode<Real> aCentroid(0.0, 0.0, 0.0);
 
-                    aNewNode *= aTetrahedron.volume();
+                    aCentroid += aNode1;
+                    aCentroid += aNode2;
+                    aCentroid += aNode3;
+                    aCentroid += aNode4;
+                    aCentroid /= 4.0;
+
+                    aCentroid *= aTetrahedron.volume();
+
+                    aNewNode += aCentroid;
 
                     aTotalVolume += aTetrahedron.volume();
                 }
-- 
2.43.0


From e3091534d97e0226dc8d3817b39108bc444721e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 120/123] fix: fractional-step solver: gravity acts on nodal
 mass and pressure carries the density

---
 trunk/src/solvers/FemCbsSolver_Imp.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/trunk/src/solvers/FemCbsSolver_Imp.hpp b/trunk/src/solvers/FemCbsSolver_Imp.hpp
index 65b6225..b9f3683 100644
--- a/trunk/src/solvers/FemCbsSolver_Imp.hpp
+++ b/trunk/src/solvers/FemCbsSolver_Imp.hpp
@@ -80,11 +80,14 @@ namespace ENigMA
         {
             Real nu = m_visc / m_dens;
 
-            CPdeEquation<Real> aPdeEquationU(1.0 / m_dt * ddt<Real>(m_u) - nu * laplacian<Real>(m_u) + divergence<Real>(m_u, m_v, m_dt) = m_gx);
+            // Gravity acts on the mass of each node
+            const Eigen::Matrix<Real, Eigen::Dynamic, 1> aNodalMass = ddt<Real>(m_u).matrixA * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Ones(m_u.u.size());
+
+            CPdeEquation<Real> aPdeEquationU(1.0 / m_dt * ddt<Real>(m_u) - nu * laplacian<Real>(m_u) + divergence<Real>(m_u, m_v, m_dt) = m_gx * aNodalMass);
             aPdeEquationU.setElimination(m_u);
             aPdeEquationU.solve(m_u);
 
-            CPdeEquation<Real> aPdeEquationV(1.0 / m_dt * ddt<Real>(m_v) - nu * laplacian<Real>(m_v) + divergence<Real>(m_u, m_v, m_dt) = m_gy);
+            CPdeEquation<Real> aPdeEquationV(1.0 / m_dt * ddt<Real>(m_v) - nu * laplacian<Real>(m_v) + divergence<Real>(m_u, m_v, m_dt) = m_gy * aNodalMass);
             aPdeEquationV.setElimination(m_v);
             aPdeEquationV.solve(m_v);
         }
@@ -93,7 +96,7 @@ namespace ENigMA
         void CFemCbsSolver<Real, 2>::calculatePressureField()
         {
             // Pressure calculation
-            CPdeEquation<Real> aPdeEquationP(laplacian<Real>(m_p) = 1.0 / m_dt * (m_G1 * m_u.u + m_G2 * m_v.u));
+            CPdeEquation<Real> aPdeEquationP(laplacian<Real>(m_p) = m_dens / m_dt * (m_G1 * m_u.u + m_G2 * m_v.u));
             aPdeEquationP.setElimination(m_p);
             aPdeEquationP.solve(m_p);
         }
@@ -215,15 +218,18 @@ namespace ENigMA
         {
             Real nu = m_visc / m_dens;
 
-            CPdeEquation<Real> aPdeEquationU(1.0 / m_dt * ddt<Real>(m_u) - nu * laplacian<Real>(m_u) + divergence<Real>(m_u, m_v, m_w, m_dt) = m_gx / m_dens);
+            // Gravity acts on the mass of each node
+            const Eigen::Matrix<Real, Eigen::Dynamic, 1> aNodalMass = ddt<Real>(m_u).matrixA * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Ones(m_u.u.size());
+
+            CPdeEquation<Real> aPdeEquationU(1.0 / m_dt * ddt<Real>(m_u) - nu * laplacian<Real>(m_u) + divergence<Real>(m_u, m_v, m_w, m_dt) = m_gx * aNodalMass);
             aPdeEquationU.setElimination(m_u);
             aPdeEquationU.solve(m_u);
 
-            CPdeEquation<Real> aPdeEquationV(1.0 / m_dt * ddt<Real>(m_v) - nu * laplacian<Real>(m_v) + divergence<Real>(m_u, m_v, m_w, m_dt) = m_gy / m_dens);
+            CPdeEquation<Real> aPdeEquationV(1.0 / m_dt * ddt<Real>(m_v) - nu * laplacian<Real>(m_v) + divergence<Real>(m_u, m_v, m_w, m_dt) = m_gy * aNodalMass);
             aPdeEquationV.setElimination(m_v);
             aPdeEquationV.solve(m_v);
 
-            CPdeEquation<Real> aPdeEquationW(1.0 / m_dt * ddt<Real>(m_w) - nu * laplacian<Real>(m_w) + divergence<Real>(m_u, m_v, m_w, m_dt) = m_gz / m_dens);
+            CPdeEquation<Real> aPdeEquationW(1.0 / m_dt * ddt<Real>(m_w) - nu * laplacian<Real>(m_w) + divergence<Real>(m_u, m_v, m_w, m_dt) = m_gz * aNodalMass);
             aPdeEquationW.setElimination(m_w);
             aPdeEquationW.solve(m_w);
         }
@@ -232,7 +238,7 @@ namespace ENigMA
         void CFemCbsSolver<Real, 3>::calculatePressureField()
         {
             // Pressure calculation
-            CPdeEquation<Real> aPdeEquationP(laplacian<Real>(m_p) = 1.0 / m_dt * (m_G1 * m_u.u + m_G2 * m_v.u + m_G3 * m_w.u));
+            CPdeEquation<Real> aPdeEquationP(laplacian<Real>(m_p) = m_dens / m_dt * (m_G1 * m_u.u + m_G2 * m_v.u + m_G3 * m_w.u));
             aPdeEquationP.setElimination(m_p);
             aPdeEquationP.solve(m_p);
         }
-- 
2.43.0


From 63be7ae0f2fc19dbb688cb3a9a8084950a98d0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:26 +0000
Subject: [PATCH 121/123] fix: three-dimensional fractional-step solver names a
 base class it does not have

---
 trunk/src/solvers/FemCbsSolver_Imp.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/trunk/src/solvers/FemCbsSolver_Imp.hpp b/trunk/src/solvers/FemCbsSolver_Imp.hpp
index b9f3683..188b6e8 100644
--- a/trunk/src/solvers/FemCbsSolver_Imp.hpp
+++ b/trunk/src/solvers/FemCbsSolver_Imp.hpp
@@ -146,7 +146,6 @@ namespace ENigMA
         // Three-dimensional
         template <typename Real>
         CFemCbsSolver<Real, 3>::CFemCbsSolver(CMshMesh<Real>& aMesh)
-            : CFemCbsSolver<Real, 2>(aMesh)
         {
             m_mesh = aMesh;
 
-- 
2.43.0


From 80115706529ba74fe845dfcd98a9ecd89772defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:58 +0000
Subject: [PATCH 122/123] fix: fractional-step solver starts at rest, without
 gravity and with unit properties

---
 trunk/src/solvers/FemCbsSolver_Imp.hpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/trunk/src/solvers/FemCbsSolver_Imp.hpp b/trunk/src/solvers/FemCbsSolver_Imp.hpp
index 188b6e8..b00162e 100644
--- a/trunk/src/solvers/FemCbsSolver_Imp.hpp
+++ b/trunk/src/solvers/FemCbsSolver_Imp.hpp
@@ -19,6 +19,11 @@ namespace ENigMA
     {
         template <typename Real>
         CFemCbsSolver<Real, 2>::CFemCbsSolver(CMshMesh<Real>& aMesh)
+            : m_dt(0.0)
+            , m_dens(1.0)
+            , m_visc(1.0)
+            , m_gx(0.0)
+            , m_gy(0.0)
         {
             m_mesh = aMesh;
 
@@ -28,7 +33,7 @@ namespace ENigMA
             m_u.setDiscretLocation(DL_NODE);
             m_u.setSimulationType(ST_FLOW);
             m_u.setNbDofs(1);
-            m_u.u.resize(aMesh.nbNodes());
+            m_u.u.setZero(aMesh.nbNodes());
 
             m_v.setMesh(aMesh);
             m_v.setDiscretMethod(DM_FEM);
@@ -36,7 +41,7 @@ namespace ENigMA
             m_v.setDiscretLocation(DL_NODE);
             m_v.setSimulationType(ST_FLOW);
             m_v.setNbDofs(1);
-            m_v.u.resize(aMesh.nbNodes());
+            m_v.u.setZero(aMesh.nbNodes());
 
             m_p.setMesh(aMesh);
             m_p.setDiscretMethod(DM_FEM);
@@ -44,7 +49,7 @@ namespace ENigMA
             m_p.setDiscretLocation(DL_NODE);
             m_p.setSimulationType(ST_FLOW);
             m_p.setNbDofs(1);
-            m_p.u.resize(aMesh.nbNodes());
+            m_p.u.setZero(aMesh.nbNodes());
 
             m_G1 = gradient<Real>(m_u, CP_X).matrixA;
             m_G2 = gradient<Real>(m_v, CP_Y).matrixA;
@@ -146,6 +151,12 @@ namespace ENigMA
         // Three-dimensional
         template <typename Real>
         CFemCbsSolver<Real, 3>::CFemCbsSolver(CMshMesh<Real>& aMesh)
+            : m_dt(0.0)
+            , m_dens(1.0)
+            , m_visc(1.0)
+            , m_gx(0.0)
+            , m_gy(0.0)
+            , m_gz(0.0)
         {
             m_mesh = aMesh;
 
@@ -155,7 +166,7 @@ namespace ENigMA
             m_u.setDiscretLocation(DL_NODE);
             m_u.setSimulationType(ST_FLOW);
             m_u.setNbDofs(1);
-            m_u.u.resize(aMesh.nbNodes());
+            m_u.u.setZero(aMesh.nbNodes());
 
             m_v.setMesh(aMesh);
             m_v.setDiscretMethod(DM_FEM);
@@ -163,7 +174,7 @@ namespace ENigMA
             m_v.setDiscretLocation(DL_NODE);
             m_v.setSimulationType(ST_FLOW);
             m_v.setNbDofs(1);
-            m_v.u.resize(aMesh.nbNodes());
+            m_v.u.setZero(aMesh.nbNodes());
 
             m_w.setMesh(aMesh);
             m_w.setDiscretMethod(DM_FEM);
@@ -171,7 +182,7 @@ namespace ENigMA
             m_w.setDiscretLocation(DL_NODE);
             m_w.setSimulationType(ST_FLOW);
             m_w.setNbDofs(1);
-            m_w.u.resize(aMesh.nbNodes());
+            m_w.u.setZero(aMesh.nbNodes());
 
             m_p.setMesh(aMesh);
             m_p.setDiscretMethod(DM_FEM);
@@ -179,7 +190,7 @@ namespace ENigMA
             m_p.setDiscretLocation(DL_NODE);
             m_p.setSimulationType(ST_FLOW);
             m_p.setNbDofs(1);
-            m_p.u.resize(aMesh.nbNodes());
+            m_p.u.setZero(aMesh.nbNodes());
 
             m_G1 = gradient<Real>(m_u, CP_X).matrixA;
             m_G2 = gradient<Real>(m_v, CP_Y).matrixA;
-- 
2.43.0


From 6e1fc45964cda524d5851fa90c1693d439c23344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:21 +0000
Subject: [PATCH 123/123] fix: recalculating the centroid or surface of a cell
 uses the faces it has now

---
 trunk/src/fvm/FvmControlVolume_Imp.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/src/fvm/FvmControlVolume_Imp.hpp b/trunk/src/fvm/FvmControlVolume_Imp.hpp
index 0fab31e..3eda33c 100644
--- a/trunk/src/fvm/FvmControlVolume_Imp.hpp
+++ b/trunk/src/fvm/FvmControlVolume_Imp.hpp
@@ -232,12 +232,12 @@ namespace ENigMA
 
                 if (m_clipped)
                 {
-                    m_clippedPolyhedron.calculateSurfaceArea();
+                    m_clippedPolyhedron.calculateSurfaceArea(bReCalculate);
                     this->m_surfaceArea = m_clippedPolyhedron.surfaceArea();
                 }
                 else
                 {
-                    m_polyhedron.calculateSurfaceArea();
+                    m_polyhedron.calculateSurfaceArea(bReCalculate);
                     this->m_surfaceArea = m_polyhedron.surfaceArea();
                 }
 
@@ -256,12 +256,12 @@ namespace ENigMA
 
                 if (m_clipped)
                 {
-                    m_clippedPolyhedron.calculateCentroid();
+                    m_clippedPolyhedron.calculateCentroid(bReCalculate);
                     this->m_centroid = m_clippedPolyhedron.centroid();
                 }
                 else
                 {
-                    m_polyhedron.calculateCentroid();
+                    m_polyhedron.calculateCentroid(bReCalculate);
                     this->m_centroid = m_polyhedron.centroid();
                 }
 
-- 
2.43.0

