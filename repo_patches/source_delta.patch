From 46bdee905f83203aa762bb0c5c17e156df2a6895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 01/56] fix: Triangle::contains with default tolerance read
 past the corners and ignored checkIfOnPlane

---
 frackit/geometry/triangle.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frackit/geometry/triangle.hh b/frackit/geometry/triangle.hh
index 60684d1..4817c73 100644
--- a/frackit/geometry/triangle.hh
+++ b/frackit/geometry/triangle.hh
@@ -169,8 +169,8 @@ public:
     bool contains(const Point& p,  bool checkIfOnPlane = true) const
     {
         auto eps = Precision<ctype>::confusion();
-        eps *= Vector(corner(0), corner(3)).length();
-        return contains(p, eps);
+        eps *= Vector(corner(0), center_).length();
+        return contains(p, eps, checkIfOnPlane);
     }
 
 private:
-- 
2.43.0


From c2d433286fb6ec256449fbfeba14ba433c44ccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 02/56] fix: Polygon ignored a reflex second corner when
 determining convexity

---
 frackit/geometry/polygon.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/geometry/polygon.hh b/frackit/geometry/polygon.hh
index ea9855e..f9ef811 100644
--- a/frackit/geometry/polygon.hh
+++ b/frackit/geometry/polygon.hh
@@ -232,7 +232,7 @@ private:
                                              Vector(edge(0).direction()));
 
         // check if normals around the other edges point in the same direction
-        for (std::size_t i = 1; i < numEdges()-1; ++i)
+        for (std::size_t i = 0; i < numEdges()-1; ++i)
         {
             const auto n = crossProduct(Vector(edge(i).direction()),
                                         Vector(edge(i+1).direction()));
-- 
2.43.0


From f30bcf81c34159be9077d46de6db691a0b97b2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 03/56] fix: EllipseArc::contains missed all but the source for
 full ellipses that do not start at angle zero

---
 frackit/geometry/ellipsearc.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frackit/geometry/ellipsearc.hh b/frackit/geometry/ellipsearc.hh
index 5cada80..f4d7667 100644
--- a/frackit/geometry/ellipsearc.hh
+++ b/frackit/geometry/ellipsearc.hh
@@ -133,6 +133,10 @@ public:
             if (!ParentType::contains(p, eps))
                 return false;
 
+        // a full turn contains all points of the ellipse
+        if (isFullEllipse_)
+            return true;
+
         const auto angle = this->getAngle(p, checkIfOnEllipse);
         if (sourceAngle_ > targetAngle_)
             return angle >= sourceAngle_ - eps || angle <= targetAngle_ + eps;
-- 
2.43.0


From 4712ce23ced0c6c6c2bf3aa99e61fe3b2cd0fe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 04/56] fix: Quadrilateral area, center and contains were wrong
 for concave quadrilaterals

---
 frackit/geometry/quadrilateral.hh | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/frackit/geometry/quadrilateral.hh b/frackit/geometry/quadrilateral.hh
index 74d1ef2..b0a0395 100644
--- a/frackit/geometry/quadrilateral.hh
+++ b/frackit/geometry/quadrilateral.hh
@@ -101,8 +101,8 @@ public:
         assert( supportPlane_.contains(p3, Precision<ctype>::confusion()
                                            *Vector(p0, p3).length()) );
 
-        const auto t1 = Triangle(p0, p1, p3);
-        const auto t2 = Triangle(p0, p3, p2);
+        determineConvexity_();
+        const auto [t1, t2] = triangulate_();
 
         // compute area
         area_ = t1.area() + t2.area();
@@ -164,6 +164,13 @@ public:
             if (!supportPlane_.contains(p, eps))
                 return false;
 
+        // the sum over sub-triangles used below requires convexity
+        if (!isConvex())
+        {
+            const auto [t1, t2] = triangulate_();
+            return t1.contains(p, eps, false) || t2.contains(p, eps, false);
+        }
+
         // sum up the areas of sub-triangles with the given point
         ctype otherArea(0.0);
         otherArea += Triangle(corners_[0], corners_[1], p).area();
@@ -197,6 +204,25 @@ public:
     bool isConvex() const { return isConvex_; }
 
 private:
+    //! split into two triangles along a diagonal that lies inside
+    std::array<Triangle, 2> triangulate_() const
+    {
+        const auto& c = corners_;
+
+        // in the concave case, the diagonal between corners 0 and 3 is
+        // outside if the other two corners are on the same side of it
+        if (!isConvex())
+        {
+            const auto d = Vector(c[0], c[3]);
+            const auto n1 = crossProduct(d, Vector(c[0], c[1]));
+            const auto n2 = crossProduct(d, Vector(c[0], c[2]));
+            if (n1*n2 > 0.0)
+                return {Triangle(c[0], c[1], c[2]), Triangle(c[1], c[3], c[2])};
+        }
+
+        return {Triangle(c[0], c[1], c[3]), Triangle(c[0], c[3], c[2])};
+    }
+
     //! determines if the polygon is convex or not
     void determineConvexity_()
     {
-- 
2.43.0


From 6dec8fe1fbe81cffaca23226e375e99943cfbdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 05/56] fix: EllipseArc::contains threw for points between the
 default and the given tolerance

---
 frackit/geometry/ellipsearc.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/geometry/ellipsearc.hh b/frackit/geometry/ellipsearc.hh
index f4d7667..10a95c8 100644
--- a/frackit/geometry/ellipsearc.hh
+++ b/frackit/geometry/ellipsearc.hh
@@ -137,7 +137,7 @@ public:
         if (isFullEllipse_)
             return true;
 
-        const auto angle = this->getAngle(p, checkIfOnEllipse);
+        const auto angle = this->getAngle(p, /*checkIfOnEllipse*/false);
         if (sourceAngle_ > targetAngle_)
             return angle >= sourceAngle_ - eps || angle <= targetAngle_ + eps;
         else
-- 
2.43.0


From 4e8ab9ed858df21f6db3a17e0bada3c27bda846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 06/56] fix: SamplingStatus queries registered unknown ids, so
 that finished() threw afterwards

---
 frackit/sampling/status.hh | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/frackit/sampling/status.hh b/frackit/sampling/status.hh
index f96e3f9..f3d3f0f 100644
--- a/frackit/sampling/status.hh
+++ b/frackit/sampling/status.hh
@@ -94,8 +94,8 @@ public:
      */
     bool finished()
     {
-        for (const auto& pair : count_)
-            if (pair.second < targetCount_.at(pair.first))
+        for (const auto& pair : targetCount_)
+            if (getCount(Id(pair.first)) < pair.second)
                 return false;
         return true;
     }
@@ -106,10 +106,10 @@ public:
      */
     bool finished(const Id& id)
     {
-        auto it = count_.find(id.get());
-        if (it == count_.end())
+        auto it = targetCount_.find(id.get());
+        if (it == targetCount_.end())
             throw std::runtime_error("Target count not set for given id");
-        return it->second >= targetCount_.at(it->first);
+        return getCount(id) >= it->second;
     }
 
     /*!
@@ -134,7 +134,10 @@ public:
      * \brief Returns the entity count for the given id.
      */
     std::size_t getCount(const Id& id)
-    { return count_[id.get()]; }
+    {
+        auto it = count_.find(id.get());
+        return it == count_.end() ? 0 : it->second;
+    }
 
     /*!
      * \brief Returns the overall entity count.
-- 
2.43.0


From 011d58ff2aeeae5d3c638b16fda2856373cee42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 07/56] fix: SamplingStatus::print threw or had undefined
 behaviour without counts, without targets or far above the target

---
 frackit/sampling/status.hh | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/frackit/sampling/status.hh b/frackit/sampling/status.hh
index f3d3f0f..f090769 100644
--- a/frackit/sampling/status.hh
+++ b/frackit/sampling/status.hh
@@ -169,8 +169,10 @@ public:
         for (const auto& pair : count_) curCount += pair.second;
         for (const auto& pair : targetCount_) curTargetCount += pair.second;
 
-        const auto ratio = 100.0*double(double(curCount)/double(curCount+rejectedCount_));
-        const auto progress = 100.0*double(curCount)/double(curTargetCount);
+        // avoid division by zero if nothing was counted yet or no targets were set
+        const auto total = curCount + rejectedCount_;
+        const auto ratio = total == 0 ? 0.0 : 100.0*double(curCount)/double(total);
+        const auto progress = curTargetCount == 0 ? 100.0 : 100.0*double(curCount)/double(curTargetCount);
 
         std::cout << std::setprecision(2) << std::fixed;
         const auto ratioNumChars = std::to_string(int(ratio)).size() + 3;
@@ -179,12 +181,12 @@ public:
         const auto countString = std::to_string(curCount);
         const auto rejectedCountString = std::to_string(rejectedCount_);
 
-        using std::max;
-        const std::size_t zero = 0;
-        const std::size_t paddingCount    = max(zero, 13 - countString.size());
-        const std::size_t paddingRejected = max(zero, 13 - rejectedCountString.size());
-        const std::size_t paddingRatio    = max(zero, 16 - ratioNumChars);
-        const std::size_t paddingProgess  = max(zero, 8  - progressNumChars);
+        const auto getPadding = [] (std::size_t width, std::size_t size)
+        { return size < width ? width - size : 0; };
+        const std::size_t paddingCount    = getPadding(13, countString.size());
+        const std::size_t paddingRejected = getPadding(13, rejectedCountString.size());
+        const std::size_t paddingRatio    = getPadding(16, ratioNumChars);
+        const std::size_t paddingProgess  = getPadding(8,  progressNumChars);
 
         std::cout << "  "      << std::string( paddingCount, ' ')    << countString + ' '
                   << "   |   " << std::string( paddingRejected, ' ') << rejectedCountString + ' '
-- 
2.43.0


From f4652ad8f1f7a483372df94b57040f0ec89a2adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 08/56] fix: Vector::isParallel never recognised antiparallel
 vectors and missed parallel ones due to rounding

---
 frackit/geometry/vector.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/frackit/geometry/vector.hh b/frackit/geometry/vector.hh
index cbecf47..9b71f94 100644
--- a/frackit/geometry/vector.hh
+++ b/frackit/geometry/vector.hh
@@ -129,9 +129,13 @@ public:
         const auto thisNorm = length();
         const auto otherNorm = other.length();
 
-        using std::acos; using std::abs;
-        const auto angle = abs(acos( (*this)*other/thisNorm/otherNorm ));
-        return angle < angularEps || abs(angularEps - M_PI) < angularEps;
+        auto e1 = asImp_(); e1 /= thisNorm;
+        auto e2 = other;    e2 /= otherNorm;
+
+        // the arc cosine is inaccurate for (anti-)parallel vectors
+        using std::atan2; using std::abs;
+        const auto angle = 2.0*atan2((e1 - e2).length(), (e1 + e2).length());
+        return angle < angularEps || abs(angle - M_PI) < angularEps;
     }
 
     //! Scalar product with another vector
-- 
2.43.0


From a482c0e7ab301e02dc76e9eed67f5864c0ddbb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 09/56] fix: Disk::getPoint returned points outside of the disk

---
 frackit/geometry/disk.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/geometry/disk.hh b/frackit/geometry/disk.hh
index 122a008..4eaaaf6 100644
--- a/frackit/geometry/disk.hh
+++ b/frackit/geometry/disk.hh
@@ -134,7 +134,7 @@ public:
         const auto p = boundingEllipse().getPoint(param1);
         Vector d(this->center(), p);
         d *= param2;
-        return p + d;
+        return this->center() + d;
     }
 
     //! Returns the ellipse describing the disk's boundary
-- 
2.43.0


From 2cd77bf3b1e08dd136690a63f8a2b7a7787a9598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 10/56] fix: curve of a full EllipseArc could not be created
 unless it started at angle zero

---
 frackit/occ/geomutilities.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frackit/occ/geomutilities.hh b/frackit/occ/geomutilities.hh
index b7ed8a3..dec0eee 100644
--- a/frackit/occ/geomutilities.hh
+++ b/frackit/occ/geomutilities.hh
@@ -82,7 +82,9 @@ namespace OCCUtilities {
         const auto geomEllipseHandle = getGeomHandle(ellipse);
         const auto angleSource = ellipseArc.sourceAngleOnEllipse();
         auto angleTarget = ellipseArc.targetAngleOnEllipse();
-        if (angleTarget < angleSource)
+        if (ellipseArc.isFullEllipse())
+            angleTarget = angleSource + 2.0*M_PI;
+        else if (angleTarget < angleSource)
             angleTarget += 2.0*M_PI;
 
         return new Geom_TrimmedCurve(geomEllipseHandle, angleSource, angleTarget);
-- 
2.43.0


From 4e24a61d94d5b65e24d8d4471fe3ed9cc3b4197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 11/56] fix: length of ellipses and full ellipse arcs was
 pi*(a+b)

---
 frackit/magnitude/length.hh | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/frackit/magnitude/length.hh b/frackit/magnitude/length.hh
index ea25240..54098a0 100644
--- a/frackit/magnitude/length.hh
+++ b/frackit/magnitude/length.hh
@@ -103,7 +103,7 @@ ctype computeLength(const Circle<ctype, worldDim>& circle)
  */
 template<class ctype, int worldDim>
 ctype computeLength(const Ellipse<ctype, worldDim>& ellipse)
-{ return M_PI*(ellipse.majorAxisLength() + ellipse.minorAxisLength()); }
+{ return computeLength(OCCUtilities::getGeomHandle(ellipse)); }
 
 /*!
  * \ingroup Magnitude
@@ -111,11 +111,7 @@ ctype computeLength(const Ellipse<ctype, worldDim>& ellipse)
  */
 template<class ctype>
 ctype computeLength(const EllipseArc<ctype, 3>& arc)
-{
-    if (arc.isFullEllipse())
-         return M_PI*(arc.majorAxisLength() + arc.minorAxisLength());
-    return computeLength(OCCUtilities::getGeomHandle(arc));
-}
+{ return computeLength(OCCUtilities::getGeomHandle(arc)); }
 
 } // end namespace Frackit
 
-- 
2.43.0


From 331925346f75e92a046d83a3601a3b5cd52818a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:45 +0000
Subject: [PATCH 12/56] fix: length of eccentric ellipses and arcs was
 inaccurate

---
 frackit/magnitude/length.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/frackit/magnitude/length.hh b/frackit/magnitude/length.hh
index 54098a0..b9f0c71 100644
--- a/frackit/magnitude/length.hh
+++ b/frackit/magnitude/length.hh
@@ -39,6 +39,7 @@
 #include <frackit/occ/geomutilities.hh>
 #include <frackit/occ/breputilities.hh>
 
+#include <frackit/precision/precision.hh>
 #include <frackit/geometry/circle.hh>
 #include <frackit/geometry/ellipse.hh>
 #include <frackit/geometry/ellipsearc.hh>
@@ -65,7 +66,11 @@ ctype computeLength(const Handle(Geom_Curve)& curve)
     const auto uMin = curve->FirstParameter();
     const auto uMax = curve->LastParameter();
     GeomAdaptor_Curve adaptorCurve(curve, uMin, uMax);
-    return GCPnts_AbscissaPoint::Length(adaptorCurve, uMin, uMax);
+
+    // without tolerance, the integration is inaccurate for eccentric ellipses
+    const ctype estimate = GCPnts_AbscissaPoint::Length(adaptorCurve, uMin, uMax);
+    return GCPnts_AbscissaPoint::Length(adaptorCurve, uMin, uMax,
+                                        Precision<ctype>::confusion()*estimate);
 }
 
 /*!
-- 
2.43.0


From 674188d64370523b811aa84fad61122985f5ea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 13/56] fix: applyOnGeometry did not support polygons

---
 frackit/geometryutilities/applyongeometry.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/frackit/geometryutilities/applyongeometry.hh b/frackit/geometryutilities/applyongeometry.hh
index 09b9a91..db486f8 100644
--- a/frackit/geometryutilities/applyongeometry.hh
+++ b/frackit/geometryutilities/applyongeometry.hh
@@ -42,6 +42,7 @@
 // implementation in the applyOnGeometry() function has to be extended.
 #include <frackit/geometry/disk.hh>
 #include <frackit/geometry/quadrilateral.hh>
+#include <frackit/geometry/polygon.hh>
 
 #include "assign.hh"
 
@@ -72,6 +73,13 @@ auto applyOnGeometry(ApplyFunc&& applyFunc, Geometry* geoPtr)
             throw std::runtime_error("applyOnGeometry(): could not assign 3d quadrilateral");
         return applyFunc(quad);
     }
+    else if (geoPtr->name() == "Polygon_3d")
+    {
+        Polygon<ctype, 3> polygon;
+        if (!assign(geoPtr, polygon))
+            throw std::runtime_error("applyOnGeometry(): could not assign 3d polygon");
+        return applyFunc(polygon);
+    }
 
     std::string msg = "applyOnGeometry() function not implemented ";
     msg += "for geometry with name \"";
-- 
2.43.0


From 19b3f378c6ca90802e4d81885f89db5a9157fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:08 +0000
Subject: [PATCH 14/56] fix: use the given tolerance in pointOnGeometryBoundary
 for faces

---
 frackit/distance/pointonboundary.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/distance/pointonboundary.hh b/frackit/distance/pointonboundary.hh
index cc8a94b..129d65a 100644
--- a/frackit/distance/pointonboundary.hh
+++ b/frackit/distance/pointonboundary.hh
@@ -143,7 +143,7 @@ template<class ctype1, class ctype2>
 bool pointOnGeometryBoundary(const Point<ctype1, 3>& p,
                              const TopoDS_Face& face,
                              ctype2 eps)
-{ return pointOnGeometry(p, BRepTools::OuterWire(face)); }
+{ return pointOnGeometry(p, BRepTools::OuterWire(face), eps); }
 
 /*!
  * \ingroup Distance
-- 
2.43.0


From d2c1b20d36891962aa56a2ed54d01f2afc8f4dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:18 +0000
Subject: [PATCH 15/56] fix: python point samplers on cylinders sample the
 squared radius

---
 python/frackit/sampling/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/frackit/sampling/__init__.py b/python/frackit/sampling/__init__.py
index 907b894..afe6ee4 100644
--- a/python/frackit/sampling/__init__.py
+++ b/python/frackit/sampling/__init__.py
@@ -121,7 +121,7 @@ def makePointSampler(geometry,
     # cylinder point sampler
     if geometry.name() == "Cylinder":
         import math
-        samplerR2  = samplerCreatorBase1(0.0, geometry.radius())
+        samplerR2  = samplerCreatorBase1(0.0, geometry.radius()**2)
         samplerPhi = samplerCreatorBase2(0.0, 2.0*math.pi)
         samplerZ   = samplerCreatorBase3(0.0, geometry.height())
         return CylinderPointSampler(geometry, samplerR2, samplerPhi, samplerZ)
@@ -129,7 +129,7 @@ def makePointSampler(geometry,
     # hollow cylinder point sampler
     if geometry.name() == "HollowCylinder":
         import math
-        samplerR2  = samplerCreatorBase1(geometry.innerRadius(), geometry.outerRadius())
+        samplerR2  = samplerCreatorBase1(geometry.innerRadius()**2, geometry.outerRadius()**2)
         samplerPhi = samplerCreatorBase2(0.0, 2.0*math.pi)
         samplerZ   = samplerCreatorBase3(0.0, geometry.height())
         return CylinderPointSampler(geometry.fullCylinder(), samplerR2, samplerPhi, samplerZ)
-- 
2.43.0


From ec9b4debb3a363e6297dee35ca5c250b0d857993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:02 +0000
Subject: [PATCH 16/56] fix: polygon sampler rejects non-positive lengths and
 reports each unsuccessful distribution

---
 frackit/sampling/polygonsampler.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/frackit/sampling/polygonsampler.hh b/frackit/sampling/polygonsampler.hh
index c726dc5..309a623 100644
--- a/frackit/sampling/polygonsampler.hh
+++ b/frackit/sampling/polygonsampler.hh
@@ -166,7 +166,7 @@ public:
         while (numCorners < 3 && count < 100)
         { numCorners = p_num_corners_(generator_); count++; };
 
-        if (count == 100)
+        if (numCorners < 3)
         {
             std::string msg = "Did not obtain a value >= 3 for the number of corners after 100 tries. ";
             msg += "Please revisit your choice of distribution for that parameter.";
@@ -249,15 +249,15 @@ public:
         auto dipLength = p_dip_length_(generator_);
 
         int countStrike = 0;
-        while (strikeLength < 0.0 && countStrike < 100)
+        while (strikeLength <= 0.0 && countStrike < 100)
         { strikeLength = p_strike_length_(generator_); countStrike++; }
-        if (countStrike == 100)
+        if (strikeLength <= 0.0)
             throw std::runtime_error("Could not sample positive strike length in 100 tries");
 
         int countDip = 0;
-        while (dipLength < 0.0 && countDip < 100)
+        while (dipLength <= 0.0 && countDip < 100)
         { dipLength = p_dip_length_(generator_); countDip++; }
-        if (countStrike == 100)
+        if (dipLength <= 0.0)
             throw std::runtime_error("Could not sample positive dip length in 100 tries");
 
         std::vector<Vector> edgeVectors;
-- 
2.43.0


From 3bf2add11bb13a88f9f534f49fbd7e421f8238b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:02 +0000
Subject: [PATCH 17/56] fix: redraw inadmissible edge lengths in the
 quadrilateral sampler

---
 frackit/sampling/quadrilateralsampler.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frackit/sampling/quadrilateralsampler.hh b/frackit/sampling/quadrilateralsampler.hh
index 008a6c0..026adbb 100644
--- a/frackit/sampling/quadrilateralsampler.hh
+++ b/frackit/sampling/quadrilateralsampler.hh
@@ -252,10 +252,10 @@ public:
         rotate(axes[0], Direction(axes[1]), dip);
 
         // sample edge lengths until all are admissible
-        auto dx1 = p_edge_(generator_); while (dx1 < minEdgeLength_) p_edge_(generator_);
-        auto dx2 = p_edge_(generator_); while (dx2 < minEdgeLength_) p_edge_(generator_);
-        auto dy1 = p_edge_(generator_); while (dy1 < minEdgeLength_) p_edge_(generator_);
-        auto dy2 = p_edge_(generator_); while (dy2 < minEdgeLength_) p_edge_(generator_);
+        auto dx1 = p_edge_(generator_); while (dx1 < minEdgeLength_) dx1 = p_edge_(generator_);
+        auto dx2 = p_edge_(generator_); while (dx2 < minEdgeLength_) dx2 = p_edge_(generator_);
+        auto dy1 = p_edge_(generator_); while (dy1 < minEdgeLength_) dy1 = p_edge_(generator_);
+        auto dy2 = p_edge_(generator_); while (dy2 < minEdgeLength_) dy2 = p_edge_(generator_);
 
         auto dxVec1 = axes[0]; dxVec1 *= dx1/2.0;
         auto dxVec2 = axes[0]; dxVec2 *= dx2/2.0;
-- 
2.43.0


From db6ce628c37e12857e45a8a37feaedf11b83f53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:00 +0000
Subject: [PATCH 18/56] fix: sort polygon edges independently of their absolute
 size in the polygon sampler

---
 frackit/sampling/polygonsampler.hh | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/frackit/sampling/polygonsampler.hh b/frackit/sampling/polygonsampler.hh
index 309a623..6f82802 100644
--- a/frackit/sampling/polygonsampler.hh
+++ b/frackit/sampling/polygonsampler.hh
@@ -267,13 +267,9 @@ public:
 
         auto getAngle = [] (const auto& v)
         {
-            if (abs(v.y()) < 1e-6) return v.x() > 0 ? 0 : M_PI;
-            if (abs(v.x()) < 1e-6) return v.y() > 0 ? M_PI/2.0 : 3.0*M_PI/2.0;
-
-            using std::atan;
-            const auto angle = atan(v.y()/v.x());
-            if (v.x() > 0.0) return angle < 0.0 ? 2.0*M_PI + angle : angle;
-            else return M_PI + angle;
+            using std::atan2;
+            const auto angle = atan2(v.y(), v.x());
+            return angle < 0.0 ? 2.0*M_PI + angle : angle;
         };
 
         // sort edges by angle
-- 
2.43.0


From cf43a7f3ea0b919823fbe603b412647e827d233c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 19/56] fix: contains() of triangles, quadrilaterals and
 polygons measures the distance to the edges

The query compared the sum of sub-triangle areas to the area of the geometry
with a tolerance of eps*eps. For tolerances below about 1e-7 times the size
this is beyond the rounding error of the areas: points in the middle of the
geometry were reported as not contained, and lines through it as not
intersecting. Points within the tolerance of an edge were not contained.
---
 frackit/geometry/polygon.hh       | 19 ++++++++++---------
 frackit/geometry/quadrilateral.hh | 21 +++++++++++----------
 frackit/geometry/triangle.hh      | 18 ++++++++++--------
 3 files changed, 31 insertions(+), 27 deletions(-)

diff --git a/frackit/geometry/polygon.hh b/frackit/geometry/polygon.hh
index f9ef811..3ce7c27 100644
--- a/frackit/geometry/polygon.hh
+++ b/frackit/geometry/polygon.hh
@@ -203,15 +203,16 @@ private:
             if (!supportingPlane().contains(p, eps))
                 return false;
 
-        // sum up the areas of sub-triangles with the given point
-        ctype otherArea(0.0);
-        for (std::size_t i = 0; i < numCorners()-1; ++i)
-            otherArea += Triangle(corner(i), corner(i+1), p).area();
-        otherArea += Triangle(corner(numCorners()-1), corner(0), p).area();
-
-        // if area is equal to the polygon area, point is on it
-        using std::abs;
-        return abs(area() - otherArea) < eps*eps;
+        // the point must not be on the outer side of any edge
+        const Vector normal(supportPlane_.normal());
+        for (std::size_t i = 0; i < numCorners(); ++i)
+        {
+            const Vector edge(corner(i), corner((i+1)%numCorners()));
+            if (crossProduct(edge, Vector(corner(i), p))*normal < -1.0*eps*edge.length())
+                return false;
+        }
+
+        return true;
     }
 
     //! returns true if the polygon, represented by its triangulation, is degenerated
diff --git a/frackit/geometry/quadrilateral.hh b/frackit/geometry/quadrilateral.hh
index b0a0395..f289e51 100644
--- a/frackit/geometry/quadrilateral.hh
+++ b/frackit/geometry/quadrilateral.hh
@@ -29,6 +29,7 @@
 #include <string>
 #include <array>
 #include <stdexcept>
+#include <utility>
 
 #include <frackit/precision/precision.hh>
 
@@ -164,23 +165,23 @@ public:
             if (!supportPlane_.contains(p, eps))
                 return false;
 
-        // the sum over sub-triangles used below requires convexity
+        // the check of the edges used below requires convexity
         if (!isConvex())
         {
             const auto [t1, t2] = triangulate_();
             return t1.contains(p, eps, false) || t2.contains(p, eps, false);
         }
 
-        // sum up the areas of sub-triangles with the given point
-        ctype otherArea(0.0);
-        otherArea += Triangle(corners_[0], corners_[1], p).area();
-        otherArea += Triangle(corners_[1], corners_[3], p).area();
-        otherArea += Triangle(corners_[3], corners_[2], p).area();
-        otherArea += Triangle(corners_[2], corners_[0], p).area();
+        // the point must not be on the outer side of any edge
+        const Vector normal(supportPlane_.normal());
+        for (const auto& [i, j] : {std::pair{0, 1}, {1, 3}, {3, 2}, {2, 0}})
+        {
+            const Vector edge(corners_[i], corners_[j]);
+            if (crossProduct(edge, Vector(corners_[i], p))*normal < -1.0*eps*edge.length())
+                return false;
+        }
 
-        // if area is equal to the quadrilateral area, point is on it
-        using std::abs;
-        return abs(area() - otherArea) < eps*eps;
+        return true;
     }
 
     /*!
diff --git a/frackit/geometry/triangle.hh b/frackit/geometry/triangle.hh
index 4817c73..d0fe038 100644
--- a/frackit/geometry/triangle.hh
+++ b/frackit/geometry/triangle.hh
@@ -148,14 +148,16 @@ public:
             if (!supportingPlane().contains(p, eps))
                 return false;
 
-        // sum up the areas of sub-triangles with the given point
-        ctype otherArea(0.0);
-        otherArea += Triangle<ctype, 3>(corners_[0], corners_[1], p).area();
-        otherArea += Triangle<ctype, 3>(corners_[1], corners_[2], p).area();
-        otherArea += Triangle<ctype, 3>(corners_[2], corners_[0], p).area();
-
-        // if area is equal to the triangle area, point is on it
-        return abs(area() - otherArea) < eps*eps;
+        // the point must not be on the outer side of any edge
+        const Vector normal(normal_);
+        for (unsigned int i = 0; i < 3; ++i)
+        {
+            const Vector edge(corners_[i], corners_[(i+1)%3]);
+            if (crossProduct(edge, Vector(corners_[i], p))*normal < -1.0*eps*edge.length())
+                return false;
+        }
+
+        return true;
     }
 
     /*!
-- 
2.43.0


From 30bce626779d0d03c39f4a5c56331640c02d07d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 20/56] fix: collinear segments that touch end to end intersect
 in a point

The overlap was returned as a segment of zero length, and the intersection of
planar geometries whose chords meet end to end consequently as well.
---
 .../intersection/algorithms/algo_segment_segment.hh  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_segment_segment.hh b/frackit/intersection/algorithms/algo_segment_segment.hh
index cb8ec48..52755d2 100644
--- a/frackit/intersection/algorithms/algo_segment_segment.hh
+++ b/frackit/intersection/algorithms/algo_segment_segment.hh
@@ -84,11 +84,15 @@ intersect_segment_segment(const Segment<ctype, wd>& segment1,
         const bool t1On2 = segment2.contains(t1, eps, false);
         if (s1On2 && t1On2) return ResultType( segment1 );
 
-        if (s2On1 && s1On2) return ResultType( Segment(s2, s1) );
-        if (s2On1 && t1On2) return ResultType( Segment(s2, t1) );
+        // if the segments only touch at their ends, the overlap is a point
+        auto makeResult = [eps] (const auto& p1, const auto& p2)
+        { return p1.isEqual(p2, eps) ? ResultType( p1 ) : ResultType( Segment(p1, p2) ); };
 
-        if (t2On1 && s1On2) return ResultType( Segment(t2, s1) );
-        if (t2On1 && t1On2) return ResultType( Segment(t2, t1) );
+        if (s2On1 && s1On2) return makeResult(s2, s1);
+        if (s2On1 && t1On2) return makeResult(s2, t1);
+
+        if (t2On1 && s1On2) return makeResult(t2, s1);
+        if (t2On1 && t1On2) return makeResult(t2, t1);
     }
 
     // Fragment the lines to find the intersection point
-- 
2.43.0


From 94bef1fd2108475ae4d49aa8af439255b02a90b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 21/56] fix: planar geometries that touch with a corner each
 intersect in that point

If both geometries only touch the intersection line of their planes in a
point, the intersection was reported to be empty.
---
 .../algorithms/algo_planargeom_planargeom.hh             | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/frackit/intersection/algorithms/algo_planargeom_planargeom.hh b/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
index 51eced1..8b91a32 100644
--- a/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
+++ b/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
@@ -125,6 +125,15 @@ intersect_planarGeometry_planarGeometry(const PlanarGeom1& faceGeom1,
                 return ResultType( p1 );
         }
 
+        // result can only be a point
+        else if (std::holds_alternative<Point<ctype, worldDim>>(is1)
+            && std::holds_alternative<Point<ctype, worldDim>>(is2))
+        {
+            const auto& p1 = std::get<Point<ctype, worldDim>>(is1);
+            if (p1.isEqual(std::get<Point<ctype, worldDim>>(is2), eps))
+                return ResultType( p1 );
+        }
+
         // intersection is empty
         return ResultType( EmptyIntersection<worldDim>() );
     }
-- 
2.43.0


From e3611bec1e6cf356434efc2d1b3cf26715725b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 22/56] fix: report the contact of a cylinder surface with a
 tangential planar geometry

A planar geometry in a tangential plane touches the surface along a segment.
It was only found if the contact happened to be on the rim of the geometry.
---
 .../algorithms/algo_cylsurface_planargeom.hh  | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh b/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
index e2004c8..3aee5f7 100644
--- a/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
+++ b/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
@@ -174,6 +174,28 @@ intersect_cylinderSurface_planarGeometry(const CylinderSurface<ctype>& cylSurfac
     assert(faceGeomWires.size() == 1);
     if (containedFaces.empty())
     {
+        // the face might be tangential to the cylinder surface
+        if (!resultIsElliptical)
+        {
+            const auto& axis = cylSurface.centerSegment();
+            const auto source = faceGeomPlane.projection(axis.source());
+            const auto target = faceGeomPlane.projection(axis.target());
+
+            using std::abs;
+            if (abs(Vector(axis.source(), source).length() - cylSurface.radius()) < eps)
+            {
+                const auto touchEdge = OCCUtilities::makeEdge(source, target);
+                const auto touchIS = OCCUtilities::intersect(touchEdge, faceShape, 0.1*eps);
+
+                ResultType result;
+                for (const auto& e : OCCUtilities::getEdges(touchIS))
+                    result.emplace_back(Segment(OCCUtilities::point(TopExp::FirstVertex(e)),
+                                                OCCUtilities::point(TopExp::LastVertex(e))));
+                if (!result.empty())
+                    return result;
+            }
+        }
+
         const auto is = OCCUtilities::intersect(faceGeomWires[0], cylLateralFace, 0.1*eps);
         const auto wires = OCCUtilities::getWires(is);
 
-- 
2.43.0


From 8e258858bbb4fb3db03da8f994798e8149622f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 23/56] fix: pick the closer arc when parsing a cylinder
 surface intersection

The midpoints of the two candidate arcs were compared to the wire with
the tolerance of the intersection. For planes that are almost orthogonal
to the cylinder, neither of them was that close, and an assertion
failed (or the wrong arc was returned without assertions).
---
 .../algorithms/algo_cylsurface_planargeom.hh  | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh b/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
index 3aee5f7..16676b3 100644
--- a/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
+++ b/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
@@ -26,6 +26,7 @@
 #define FRACKIT_CYLINDERSURFACE_PLANAR_GEOMETRY_INTERSECTION_HH
 
 #include <vector>
+#include <limits>
 #include <algorithm>
 
 #include <BRep_Tool.hxx>
@@ -65,8 +66,7 @@ namespace Detail {
     // parses the wire into the ellipse arc living on the given ellipse
     template<class ctype>
     EllipseArc<ctype, 3> makeArc(const TopoDS_Wire& wire,
-                                 const Ellipse<ctype, 3>& ellipse,
-                                 const ctype eps)
+                                 const Ellipse<ctype, 3>& ellipse)
     {
         using EllipseArc = EllipseArc<ctype, 3>;
 
@@ -78,19 +78,21 @@ namespace Detail {
         const auto center1 = OCCUtilities::point(arc1.getPoint(0.5));
         const auto center2 = OCCUtilities::point(arc2.getPoint(0.5));
 
-        unsigned int resultArcIndex = 0;
+        // the center of the other arc lies on the opposite side of the ellipse
+        ctype distance1 = std::numeric_limits<ctype>::max();
+        ctype distance2 = std::numeric_limits<ctype>::max();
         for (const auto& edge : OCCUtilities::getEdges(wire))
         {
             auto curve = OCCUtilities::getGeomHandle(edge);
             GeomAPI_ProjectPointOnCurve c1OnCurve(center1, curve);
             GeomAPI_ProjectPointOnCurve c2OnCurve(center2, curve);
 
-            if (c1OnCurve.NbPoints() > 0 && c1OnCurve.LowerDistance() < eps) { resultArcIndex = 1; break; }
-            if (c2OnCurve.NbPoints() > 0 && c2OnCurve.LowerDistance() < eps) { resultArcIndex = 2; break; }
+            using std::min;
+            if (c1OnCurve.NbPoints() > 0) distance1 = min(distance1, c1OnCurve.LowerDistance());
+            if (c2OnCurve.NbPoints() > 0) distance2 = min(distance2, c2OnCurve.LowerDistance());
         }
 
-        assert(resultArcIndex != 0);
-        return resultArcIndex == 1 ? arc1 : arc2;
+        return distance1 <= distance2 ? arc1 : arc2;
     }
 
 } // end namespace Detail
@@ -205,7 +207,7 @@ intersect_cylinderSurface_planarGeometry(const CylinderSurface<ctype>& cylSurfac
             if (resultIsElliptical)
             {
                 for (const auto& w : wires)
-                    result.emplace_back(Detail::makeArc(w, infEllipse, eps));
+                    result.emplace_back(Detail::makeArc(w, infEllipse));
             }
             else
             {
@@ -263,7 +265,7 @@ intersect_cylinderSurface_planarGeometry(const CylinderSurface<ctype>& cylSurfac
             return ResultType({ infEllipse });
 
         if (faceGeomIsOrthogonal || !faceGeomIsParallel)
-            isArcs.emplace_back(Detail::makeArc(wire, infEllipse, eps));
+            isArcs.emplace_back(Detail::makeArc(wire, infEllipse));
         else
         {
             const auto [p1, p2] = Detail::getWireTips<ctype>(wire);
-- 
2.43.0


From 9cfe0ee21728f8cc20a08f63fdc83818734c9f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 24/56] fix: intersection of a small polygon with a large disk
 was missed

The search length along the intersection line only considered the size
of the polygon, although it is also used around the center of the disk.
---
 frackit/intersection/algorithms/algo_polygon_disk.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/intersection/algorithms/algo_polygon_disk.hh b/frackit/intersection/algorithms/algo_polygon_disk.hh
index 450e39d..25a3174 100644
--- a/frackit/intersection/algorithms/algo_polygon_disk.hh
+++ b/frackit/intersection/algorithms/algo_polygon_disk.hh
@@ -50,7 +50,7 @@ intersect_polygon_disk(const Polygon<ctype, 3>& polygon,
                              ctype eps)
 {
     using Segment = Segment<ctype, 3>;
-    ctype charLength = 0.0;
+    ctype charLength = disk.majorAxisLength()*disk.majorAxisLength();
 
     using std::max;
     for (unsigned int i = 0; i < polygon.numCorners(); ++i)
-- 
2.43.0


From ddc8a943ee9ee3673d8d0bb64d3d7a5576989505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 25/56] fix: overlap of collinear segments was reduced to a
 point

The direction of short segments away from the origin is only accurate
up to rounding errors, and fell out of the fixed angular tolerance.
---
 .../intersection/algorithms/algo_segment_segment.hh   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_segment_segment.hh b/frackit/intersection/algorithms/algo_segment_segment.hh
index 52755d2..963865a 100644
--- a/frackit/intersection/algorithms/algo_segment_segment.hh
+++ b/frackit/intersection/algorithms/algo_segment_segment.hh
@@ -69,10 +69,17 @@ intersect_segment_segment(const Segment<ctype, wd>& segment1,
     gp_Vec v1(dir1.x(), dir1.y(), dir1.z());
     gp_Vec v2(dir2.x(), dir2.y(), dir2.z());
 
-    if (v1.IsParallel(v2, Precision<ctype>::angular()))
+    // the direction of short segments is inaccurate, thus, segments are
+    // also treated as parallel if one is located on the line of the other
+    const auto line1 = segment1.supportingLine();
+    const auto line2 = segment2.supportingLine();
+    const bool isCollinear = (line1.contains(s2, eps) && line1.contains(t2, eps))
+                             || (line2.contains(s1, eps) && line2.contains(t1, eps));
+
+    if (isCollinear || v1.IsParallel(v2, Precision<ctype>::angular()))
     {
         // check if the lines overlap
-        if (!segment1.supportingLine().contains(s2, eps))
+        if (!isCollinear)
             return ResultType( EmptyIntersection<wd>() );
 
         // find overlap
-- 
2.43.0


From c91d717d56b28f2242c2a2ccef842147275210c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 26/56] fix: inaccurate ellipse axes for planes almost
 orthogonal to a cylinder

The major axis was computed from the difference of projected points,
whose cancellation made the subsequent arc creation throw.
---
 .../algorithms/algo_cylsurface_planargeom.hh             | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh b/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
index 16676b3..0bc8212 100644
--- a/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
+++ b/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
@@ -146,10 +146,11 @@ intersect_cylinderSurface_planarGeometry(const CylinderSurface<ctype>& cylSurfac
                              cylSurface.radius(), cylSurface.radius());
     else if (!faceGeomIsParallel)
     {
-        Vector cylDir(cylSurface.direction());
-        cylDir *= charLength;
-
-        Direction majAxis(Vector(faceGeom.center(), faceGeomPlane.projection(faceGeom.center() + cylDir)));
+        // use the projected direction, as the difference between projected points
+        // is subject to cancellation if the plane is almost orthogonal to the axis
+        const Vector normal(faceGeomPlane.normal());
+        const Vector cylDir(cylSurface.direction());
+        Direction majAxis(crossProduct(crossProduct(normal, cylDir), normal));
         Direction minAxis(crossProduct(Vector(faceGeomPlane.normal()), Vector(majAxis)));
         if (!isRightHandSystem(Vector(majAxis), Vector(minAxis), Vector(faceGeomPlane.normal())))
             majAxis.invert();
-- 
2.43.0


From 262495626be3383284f77aa823dc2db265b077d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 27/56] fix: intersection angles of faces abort for
 intersections found with a tolerance

---
 frackit/intersection/intersectionangle.hh | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/frackit/intersection/intersectionangle.hh b/frackit/intersection/intersectionangle.hh
index 050791f..22a7a36 100644
--- a/frackit/intersection/intersectionangle.hh
+++ b/frackit/intersection/intersectionangle.hh
@@ -326,10 +326,6 @@ public:
         assert(projection1.IsDone());
         assert(projection2.IsDone());
 
-        // since the intersection point should have been on the face, distance < eps!
-        assert(projection1.LowerDistance() < defaultEpsilon(face1));
-        assert(projection2.LowerDistance() < defaultEpsilon(face2));
-
         ctype paramU1, paramV1, paramU2, paramV2;
         projection1.LowerDistanceParameters(paramU1, paramV1);
         projection2.LowerDistanceParameters(paramU2, paramV2);
@@ -340,9 +336,6 @@ public:
         geomSurface1->D1(paramU1, paramV1, p1, baseVec11, baseVec12);
         geomSurface2->D1(paramU2, paramV2, p2, baseVec21, baseVec22);
 
-        assert(OCCUtilities::point(p1).isEqual(isPoint, defaultEpsilon(face1)));
-        assert(OCCUtilities::point(p2).isEqual(isPoint, defaultEpsilon(face1)));
-
         using Direction = Direction<ctype, 3>;
         const auto base11 = OCCUtilities::vector(baseVec11);
         const auto base12 = OCCUtilities::vector(baseVec12);
@@ -371,9 +364,6 @@ public:
         const auto geomSurface = OCCUtilities::getGeomHandle(face);
         GeomAPI_ProjectPointOnSurf projection(OCCUtilities::point(isPoint), geomSurface);
 
-        // since the intersection point should have been on the face, distance < eps!
-        assert(projection.LowerDistance() < defaultEpsilon(face));
-
         ctype paramU, paramV;
         projection.LowerDistanceParameters(paramU, paramV);
 
-- 
2.43.0


From 58f138be075c9052ed0a41abd8fa358463a2dd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 28/56] fix: wrong parameter used for the tangent plane of a
 face

---
 frackit/intersection/intersectionangle.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/intersection/intersectionangle.hh b/frackit/intersection/intersectionangle.hh
index 22a7a36..fe68bc0 100644
--- a/frackit/intersection/intersectionangle.hh
+++ b/frackit/intersection/intersectionangle.hh
@@ -370,7 +370,7 @@ public:
         // construct the tangent plane of the face in the point
         gp_Pnt p;
         gp_Vec baseVec1, baseVec2;
-        geomSurface->D1(projection, paramV, p, baseVec1, baseVec2);
+        geomSurface->D1(paramU, paramV, p, baseVec1, baseVec2);
 
         const auto base1 = OCCUtilities::vector(baseVec1);
         const auto base2 = OCCUtilities::vector(baseVec2);
-- 
2.43.0


From 1e7b108be44ba360b3da9f18c80878478a1dab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 29/56] fix: angle between parallel planes could be NaN

---
 frackit/intersection/intersectionangle.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frackit/intersection/intersectionangle.hh b/frackit/intersection/intersectionangle.hh
index fe68bc0..f6f501c 100644
--- a/frackit/intersection/intersectionangle.hh
+++ b/frackit/intersection/intersectionangle.hh
@@ -113,8 +113,12 @@ public:
 
         using std::abs;
         using std::acos;
+        using std::min;
         using Vector = Vector<ctype, wd>;
-        return acos( abs(Vector(plane1.normal())*Vector(plane2.normal())) );
+
+        // avoid NaN for parallel planes whose scalar product exceeds one due to round-off
+        const ctype cosAngle = abs(Vector(plane1.normal())*Vector(plane2.normal()));
+        return acos( min(cosAngle, ctype(1.0)) );
     }
 
     /*!
-- 
2.43.0


From d5c28de5daadc1bf80c5c827d2bad87c617a2c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 30/56] fix: distance of ellipses to the boundary of
 quadrilaterals and polygons was missing

---
 frackit/distance/distancetoboundary.hh | 33 ++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/frackit/distance/distancetoboundary.hh b/frackit/distance/distancetoboundary.hh
index 28e4d39..f0e739c 100644
--- a/frackit/distance/distancetoboundary.hh
+++ b/frackit/distance/distancetoboundary.hh
@@ -41,6 +41,7 @@
 
 #include <frackit/precision/precision.hh>
 #include <frackit/geometry/disk.hh>
+#include <frackit/geometry/ellipse.hh>
 #include <frackit/geometry/quadrilateral.hh>
 #include <frackit/geometry/polygon.hh>
 #include <frackit/geometry/cylindersurface.hh>
@@ -301,6 +302,38 @@ ctype computeDistanceToBoundary(const TopoDS_Shape& shape,
     return minDist;
 }
 
+/*!
+ * \ingroup Distance
+ * \brief Compute the distance of an ellipse
+ *        to the bounding wire of a quadrilateral.
+ * \param ellipse The ellipse
+ * \param quad The quadrilateral
+ */
+template<class ctype1, class ctype2>
+PromotedType<ctype1, ctype2>
+computeDistanceToBoundary(const Ellipse<ctype1, 3>& ellipse,
+                          const Quadrilateral<ctype2, 3>& quad)
+{
+    const TopoDS_Shape shape = OCCUtilities::getShape(ellipse);
+    return computeDistanceToBoundary(shape, quad);
+}
+
+/*!
+ * \ingroup Distance
+ * \brief Compute the distance of an ellipse
+ *        to the bounding wire of a polygon.
+ * \param ellipse The ellipse
+ * \param polygon The polygon
+ */
+template<class ctype1, class ctype2>
+PromotedType<ctype1, ctype2>
+computeDistanceToBoundary(const Ellipse<ctype1, 3>& ellipse,
+                          const Polygon<ctype2, 3>& polygon)
+{
+    const TopoDS_Shape shape = OCCUtilities::getShape(ellipse);
+    return computeDistanceToBoundary(shape, polygon);
+}
+
 /*!
  * \ingroup Distance
  * \brief Compute the distance of a geometry
-- 
2.43.0


From 654bef0d3354d21ad1f2f343fe04357a34622ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:14 +0000
Subject: [PATCH 31/56] fix: getTangentPlane of a cylinder surface aborts for
 points slightly off the surface

---
 frackit/geometry/cylindersurface.hh | 1 -
 1 file changed, 1 deletion(-)

diff --git a/frackit/geometry/cylindersurface.hh b/frackit/geometry/cylindersurface.hh
index a46d1db..10613b3 100644
--- a/frackit/geometry/cylindersurface.hh
+++ b/frackit/geometry/cylindersurface.hh
@@ -143,7 +143,6 @@ public:
      */
     Plane getTangentPlane(const Point& p) const
     {
-        assert(contains(p, Precision<ctype>::confusion()*0.5*(radius() + height())));
         Direction n( Vector(centerSegment().supportingLine().projection(p), p) );
         return Plane(p, n);
     }
-- 
2.43.0


From 14b66eca598817c7c4b95a47b799652b3a567270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 32/56] fix: multi-geometry entity set does not compile with
 recent compilers

---
 frackit/entitynetwork/multigeometryentityset.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/entitynetwork/multigeometryentityset.hh b/frackit/entitynetwork/multigeometryentityset.hh
index 8c03ed7..dc8a822 100644
--- a/frackit/entitynetwork/multigeometryentityset.hh
+++ b/frackit/entitynetwork/multigeometryentityset.hh
@@ -96,7 +96,7 @@ public:
         }
 
         // define a new entity set
-        entityIdVectors.push_back( GeometryVectorIdPair<Entity>({}, id.get()) );
+        entityIdVectors.push_back( GeometryVectorIdPair<Entity>(std::vector<Entity>(), id) );
         entityIdVectors.back().first.push_back(entity);
         entitySetGeometries_[id.get()] = geometryName(entity);
     }
-- 
2.43.0


From 2400b5b2d71f82398d8da3938e563bec3810d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 33/56] fix: rejected registration in the constraints matrix
 left relations behind

---
 frackit/entitynetwork/constraintsmatrix.hh | 28 +++++++++++++++-------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/frackit/entitynetwork/constraintsmatrix.hh b/frackit/entitynetwork/constraintsmatrix.hh
index 22884f8..c4cdc6d 100644
--- a/frackit/entitynetwork/constraintsmatrix.hh
+++ b/frackit/entitynetwork/constraintsmatrix.hh
@@ -27,6 +27,7 @@
 #ifndef FRACKIT_ENTITYNETWORK_CONSTRAINTS_MATRIX_HH
 #define FRACKIT_ENTITYNETWORK_CONSTRAINTS_MATRIX_HH
 
+#include <algorithm>
 #include <stdexcept>
 #include <utility>
 #include <vector>
@@ -64,8 +65,7 @@ public:
      */
     void addConstraints(const Constraints& c, const IdPair& idPair)
     {
-        addConstraint_(c);
-        updateIndexMaps_(idPair);
+        addConstraints(c, std::initializer_list<IdPair>{idPair});
     }
 
     /*!
@@ -76,6 +76,12 @@ public:
     void addConstraints(const Constraints& c,
                         const std::initializer_list<IdPair>& idPairs)
     {
+        // reject the registration as a whole before anything is modified
+        for (auto it = idPairs.begin(); it != idPairs.end(); ++it)
+            if (isDefined_(*it) || std::any_of(idPairs.begin(), it, [it] (const IdPair& p)
+                                               { return p.first() == it->first() && p.second() == it->second(); }))
+                throw std::runtime_error("ConstraintsMatrix: Relation was already defined!");
+
         addConstraint_(c);
         for (const auto& idPair : idPairs)
             updateIndexMaps_(idPair);
@@ -126,6 +132,17 @@ private:
         constraints_.push_back(c);
     }
 
+    /*!
+     * \brief Returns true if the relation was already defined.
+     */
+    bool isDefined_(const IdPair& idPair) const
+    {
+        auto it = relations_.find(idPair.first().get());
+        return it != relations_.end() && std::count(it->second.begin(),
+                                                    it->second.end(),
+                                                    idPair.second().get());
+    }
+
     /*!
      * \brief Updates the index maps after a call to addConstraint_().
      */
@@ -134,13 +151,6 @@ private:
         const auto firstIdx = idPair.first().get();
         const auto secondIdx = idPair.second().get();
 
-        auto it = relations_.find(idPair.first().get());
-        if (it != relations_.end())
-            if (std::count(it->second.begin(),
-                           it->second.end(),
-                           idPair.second().get()))
-                throw std::runtime_error("ConstraintsMatrix: Relation was already defined!");
-
         const auto cIdx = constraints_.size() - 1;
         constraintsIndexMap_[firstIdx].push_back(std::make_pair(secondIdx, cIdx));
         relations_[firstIdx].push_back(secondIdx);
-- 
2.43.0


From 46e7bde1e2f02e1878c3202f9edc315ceae03b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 34/56] fix: network fragments contained vertices and edges of
 intersections

---
 frackit/entitynetwork/networkbuilder.hh | 63 ++++++++++---------------
 1 file changed, 25 insertions(+), 38 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 601c8d8..6e20eb3 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -254,20 +254,7 @@ protected:
                     throw std::runtime_error("Could not find entity index");
 
                 // map all fragments to this new index
-                const bool isDeleted = intersection.IsDeleted(entityShape);
-                const auto& generated = intersection.Generated(entityShape);
-                const auto& modified = intersection.Modified(entityShape);
-                if (!isDeleted && generated.IsEmpty() && modified.IsEmpty())
-                {
-                    newIndexMap.Bind(entityShape, entityIdx);
-                    newList.Append(entityShape);
-                }
-                for (const auto& fragment : generated)
-                {
-                    if (!newIndexMap.IsBound(fragment)) newIndexMap.Bind(fragment, entityIdx);
-                    if (!newList.Contains(fragment)) newList.Append(fragment);
-                }
-                for (const auto& fragment : modified)
+                for (const auto& fragment : getFragments_(intersection, entityShape))
                 {
                     if (!newIndexMap.IsBound(fragment)) newIndexMap.Bind(fragment, entityIdx);
                     if (!newList.Contains(fragment)) newList.Append(fragment);
@@ -347,22 +334,9 @@ protected:
                 throw std::runtime_error("Could not find original entity index");
 
             // map all fragments to this new index
-            const bool isDeleted = fragmentAlgo.IsDeleted(shape);
-            const auto& generated = fragmentAlgo.Generated(shape);
-            const auto& modified = fragmentAlgo.Modified(shape);
             auto& newList = newFragmentLists[subDomainIdx];
             auto& newMap = newFragmentMaps[subDomainIdx];
-            if (!isDeleted && generated.IsEmpty() && modified.IsEmpty())
-            {
-                newMap.Bind(shape, entityIdx);
-                newList.Append(shape);
-            }
-            for (const auto& fragment : generated)
-            {
-                if (!newMap.IsBound(fragment)) newMap.Bind(fragment, entityIdx);
-                if (!newList.Contains(fragment)) newList.Append(fragment);
-            }
-            for (const auto& fragment : modified)
+            for (const auto& fragment : getFragments_(fragmentAlgo, shape))
             {
                 if (!newMap.IsBound(fragment)) newMap.Bind(fragment, entityIdx);
                 if (!newList.Contains(fragment)) newList.Append(fragment);
@@ -384,22 +358,35 @@ protected:
                 throw std::runtime_error("Could not find sub-domain index");
 
             // store the fragments of this sub-domain
-            const bool isDeleted = fragmentAlgo.IsDeleted(domainShape);
-            const auto& generated = fragmentAlgo.Generated(domainShape);
-            const auto& modified = fragmentAlgo.Modified(domainShape);
-
             auto& sdFragmentList = subDomainFragmentLists_[subDomainIdx];
-            if (!isDeleted && generated.IsEmpty() && modified.IsEmpty())
-                sdFragmentList.Append(domainShape);
-            for (const auto& fragment : generated)
-                if (!sdFragmentList.Contains(fragment))
-                    sdFragmentList.Append(fragment);
-            for (const auto& fragment : modified)
+            for (const auto& fragment : getFragments_(fragmentAlgo, domainShape))
                 if (!sdFragmentList.Contains(fragment))
                     sdFragmentList.Append(fragment);
         }
     }
 
+    /*!
+     * \brief Returns the fragments that a shape was split into.
+     * \note The history of boolean operations also contains the lower-dimensional
+     *       shapes generated at intersections, which are no fragments of the shape.
+     * \param algo The boolean operation
+     * \param shape The original shape
+     */
+    template<class Algorithm>
+    static TopTools_ListOfShape getFragments_(Algorithm& algo, const TopoDS_Shape& shape)
+    {
+        TopTools_ListOfShape fragments;
+        for (const auto& fragment : algo.Generated(shape))
+            if (fragment.ShapeType() == shape.ShapeType())
+                fragments.Append(fragment);
+        for (const auto& fragment : algo.Modified(shape))
+            if (fragment.ShapeType() == shape.ShapeType())
+                fragments.Append(fragment);
+        if (fragments.IsEmpty() && !algo.IsDeleted(shape))
+            fragments.Append(shape);
+        return fragments;
+    }
+
     /*!
      * \brief Returns the tolerance value.
      */
-- 
2.43.0


From 2f6bab514ddc88c9480465a76a1f81531e5071cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 35/56] fix: networks with a single entity or domain could not
 be built

---
 frackit/entitynetwork/networkbuilder.hh | 26 +++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 6e20eb3..0aae031 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -32,6 +32,7 @@
 
 #include <TopTools_DataMapOfShapeInteger.hxx>
 #include <TopTools_ListOfShape.hxx>
+#include <TopTools_MapOfShape.hxx>
 #include <TopoDS_Shape.hxx>
 
 #include <frackit/common/id.hh>
@@ -303,18 +304,27 @@ protected:
 
         // List of both entity and sub-domain shapes
         TopTools_ListOfShape allShapes;
+        TopTools_MapOfShape uniqueShapes;
         for (const auto& entityShape : allEntities)
-            allShapes.Append(entityShape);
+            if (uniqueShapes.Add(entityShape))
+                allShapes.Append(entityShape);
         for (const auto& domainShape : allDomains)
-            allShapes.Append(domainShape);
+            if (uniqueShapes.Add(domainShape))
+                allShapes.Append(domainShape);
 
-        // fragment all shapes
+        // fragment all shapes (the algorithm requires at least two shapes,
+        // but there is nothing to be fragmented otherwise)
         BRepAlgoAPI_BuilderAlgo fragmentAlgo;
-        fragmentAlgo.SetRunParallel(false);
-        fragmentAlgo.SetArguments(allShapes);
-        fragmentAlgo.SetFuzzyValue(getEpsilon_());
-        fragmentAlgo.Build();
-        if(!fragmentAlgo.IsDone())
+        if (allShapes.Extent() > 1)
+        {
+            fragmentAlgo.SetRunParallel(false);
+            fragmentAlgo.SetArguments(allShapes);
+            fragmentAlgo.SetFuzzyValue(getEpsilon_());
+            fragmentAlgo.Build();
+            if(!fragmentAlgo.IsDone())
+                throw std::runtime_error("Could not perform fragmentation");
+        }
+        else if (networks_.empty() && subDomains_.empty())
             throw std::runtime_error("Could not perform fragmentation");
 
         // map the resulting entities back to the original entity index
-- 
2.43.0


From 393c541f597b1130c656f7b1315859e0e89d8aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 36/56] fix: entities of different sub-domains could share an
 index

---
 frackit/entitynetwork/networkbuilder.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 0aae031..41a334d 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -586,7 +586,11 @@ public:
             const auto& indexMap = dataPair.second;
             for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(indexMap); it.More(); it.Next())
                 fragmentIndexMap.Bind(it.Key(), it.Value() + entityIndexOffset);
-            entityIndexOffset += indexMap.Extent();
+
+            // the next indices start behind those of all entities of this network
+            auto networkIt = this->networks_.find(dataPair.first);
+            if (networkIt != this->networks_.end())
+                entityIndexOffset += networkIt->second.Extent();
         }
 
         // create the network
-- 
2.43.0


From b1f32414a0a95b5ae4e7ff866afc9a9580b23caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 37/56] fix: fragments shared by entities of several
 sub-domains were listed repeatedly

---
 frackit/entitynetwork/networkbuilder.hh | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 41a334d..e3eee3b 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -573,19 +573,20 @@ public:
         // Then fragment the network entities
         this->fragment_(/*fragmentNetworkOnly*/true);
 
-        // merge all fragments into one list
+        // merge all fragments into one list and all index maps into one
+        // (where entities of several sub-domains overlap they share fragments)
         TopTools_ListOfShape fragmentList;
-        for (auto& sdFragmentDataPair : this->networkFragmentLists_)
-            fragmentList.Append(sdFragmentDataPair.second);
-
-        // merge all index maps into one
         std::size_t entityIndexOffset = 0;
         TopTools_DataMapOfShapeInteger fragmentIndexMap;
         for (auto& dataPair : this->networkFragmentMaps_)
         {
             const auto& indexMap = dataPair.second;
-            for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(indexMap); it.More(); it.Next())
-                fragmentIndexMap.Bind(it.Key(), it.Value() + entityIndexOffset);
+            for (const auto& fragment : this->networkFragmentLists_.at(dataPair.first))
+            {
+                if (fragmentIndexMap.IsBound(fragment)) continue;
+                fragmentIndexMap.Bind(fragment, indexMap.Find(fragment) + entityIndexOffset);
+                fragmentList.Append(fragment);
+            }
 
             // the next indices start behind those of all entities of this network
             auto networkIt = this->networks_.find(dataPair.first);
-- 
2.43.0


From 7e9e82a69eb7b8eb0758ef70f0f2f8b350302f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 38/56] fix: fragments of coincident entities with opposite
 orientation were listed twice

---
 frackit/entitynetwork/networkbuilder.hh | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index e3eee3b..8576bed 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -257,8 +257,10 @@ protected:
                 // map all fragments to this new index
                 for (const auto& fragment : getFragments_(intersection, entityShape))
                 {
-                    if (!newIndexMap.IsBound(fragment)) newIndexMap.Bind(fragment, entityIdx);
-                    if (!newList.Contains(fragment)) newList.Append(fragment);
+                    // fragments shared by several entities may be oriented differently
+                    if (newIndexMap.IsBound(fragment)) continue;
+                    newIndexMap.Bind(fragment, entityIdx);
+                    newList.Append(fragment);
                 }
             }
 
@@ -348,8 +350,10 @@ protected:
             auto& newMap = newFragmentMaps[subDomainIdx];
             for (const auto& fragment : getFragments_(fragmentAlgo, shape))
             {
-                if (!newMap.IsBound(fragment)) newMap.Bind(fragment, entityIdx);
-                if (!newList.Contains(fragment)) newList.Append(fragment);
+                // fragments shared by several entities may be oriented differently
+                if (newMap.IsBound(fragment)) continue;
+                newMap.Bind(fragment, entityIdx);
+                newList.Append(fragment);
             }
         }
 
-- 
2.43.0


From 7ae1109443c31af1deb57e20693e1747cd501df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 39/56] fix: entities added to several sub-domains were lost
 from all but one of them

---
 frackit/entitynetwork/networkbuilder.hh | 41 +++++++++++--------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 8576bed..08c2eb0 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -281,15 +281,9 @@ protected:
     {
         // List with all entities of the network
         TopTools_ListOfShape allEntities;
-        TopTools_DataMapOfShapeInteger entityToSubDomainIndex;
         for (const auto& fragmentListPair : networkFragmentLists_)
-        {
             for (const auto& fragment : fragmentListPair.second)
-            {
                 allEntities.Append(fragment);
-                entityToSubDomainIndex.Bind(fragment, fragmentListPair.first);
-            }
-        }
 
         // All sub-domains (omit this if only network is considered)
         TopTools_ListOfShape allDomains;
@@ -332,28 +326,29 @@ protected:
         // map the resulting entities back to the original entity index
         std::unordered_map<std::size_t, TopTools_ListOfShape> newFragmentLists;
         std::unordered_map<std::size_t, TopTools_DataMapOfShapeInteger> newFragmentMaps;
-        for (const auto& shape : allEntities)
+        for (const auto& fragmentListPair : networkFragmentLists_)
         {
-            // get subdomain index
-            int subDomainIdx;
-            if (!entityToSubDomainIndex.Find(shape, subDomainIdx))
-                throw std::runtime_error("Could not find sub-domain index");
-
-            // get original entity index
-            int entityIdx;
+            // the same shape may be contained in several sub-domains
+            const auto subDomainIdx = fragmentListPair.first;
             const auto& map = networkFragmentMaps_.at(subDomainIdx);
-            if (!map.Find(shape, entityIdx))
-                throw std::runtime_error("Could not find original entity index");
-
-            // map all fragments to this new index
             auto& newList = newFragmentLists[subDomainIdx];
             auto& newMap = newFragmentMaps[subDomainIdx];
-            for (const auto& fragment : getFragments_(fragmentAlgo, shape))
+
+            for (const auto& shape : fragmentListPair.second)
             {
-                // fragments shared by several entities may be oriented differently
-                if (newMap.IsBound(fragment)) continue;
-                newMap.Bind(fragment, entityIdx);
-                newList.Append(fragment);
+                // get original entity index
+                int entityIdx;
+                if (!map.Find(shape, entityIdx))
+                    throw std::runtime_error("Could not find original entity index");
+
+                // map all fragments to this new index
+                for (const auto& fragment : getFragments_(fragmentAlgo, shape))
+                {
+                    // fragments shared by several entities may be oriented differently
+                    if (newMap.IsBound(fragment)) continue;
+                    newMap.Bind(fragment, entityIdx);
+                    newList.Append(fragment);
+                }
             }
         }
 
-- 
2.43.0


From 276e44cb52b79eecf6a46d251f55348eda8ac12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 40/56] fix: intersection edges were lost depending on their
 orientation

---
 frackit/io/brepwriter.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frackit/io/brepwriter.hh b/frackit/io/brepwriter.hh
index 8d097c2..db65a6b 100644
--- a/frackit/io/brepwriter.hh
+++ b/frackit/io/brepwriter.hh
@@ -34,6 +34,7 @@
 #include <TopTools_IndexedMapOfShape.hxx>
 #include <TopTools_DataMapOfShapeInteger.hxx>
 #include <TopTools_ListOfShape.hxx>
+#include <TopTools_MapOfShape.hxx>
 #include <Standard_TypeDef.hxx>
 
 #include <TopExp_Explorer.hxx>
@@ -189,7 +190,7 @@ private:
                     entityIntersections_.resize(entityIntersections_.size()+1);
                     for (unsigned int eIdx = 0; eIdx < edges.size(); ++eIdx)
                         if (!std::count(handled.begin(), handled.end(), eIdx))
-                            entityIntersections_.back().Append(edges[eIdx]);
+                            entityIntersections_.back().Add(edges[eIdx]);
                 }
             }
         }
@@ -348,7 +349,7 @@ private:
     // containers to store the primary entities
     TopTools_ListOfShape allEntities_;
     TopTools_DataMapOfShapeInteger allEntitiesIndexMap_;
-    std::vector<TopTools_ListOfShape> entityIntersections_;
+    std::vector<TopTools_MapOfShape> entityIntersections_;
 
     // sub-shape maps
     TopTools_IndexedMapOfShape vmap_, emap_, wmap_, fmap_, shmap_, somap_;
-- 
2.43.0


From 79353fbf7c1f0440cfcbc89a270da3a05879cbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 41/56] fix: entities of different sub-domains were written
 into the same physical group

---
 frackit/io/brepwriter.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/frackit/io/brepwriter.hh b/frackit/io/brepwriter.hh
index db65a6b..e23b4ac 100644
--- a/frackit/io/brepwriter.hh
+++ b/frackit/io/brepwriter.hh
@@ -24,6 +24,7 @@
 #ifndef FRACKIT_BREP_WRITER_HH
 #define FRACKIT_BREP_WRITER_HH
 
+#include <algorithm>
 #include <string>
 #include <stdexcept>
 #include <unordered_map>
@@ -136,15 +137,17 @@ private:
             // the map maps to the entity index within the sub-domain network
             // Therefore, we add the offset in order to ensure that we don't add
             // entities from another network to the same primary entity index
+            std::size_t maxEntityIndex = 0;
             const auto& map = network.subDomainEntityFragmentsIndexMap(id);
             for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(map); it.More(); it.Next())
             {
                 allEntities_.Append(it.Key());
                 allEntitiesIndexMap_.Bind(it.Key(), it.Value() + subNetworkOffset);
+                maxEntityIndex = std::max(maxEntityIndex, static_cast<std::size_t>(it.Value()));
             }
 
-            // the next sub-domain
-            subNetworkOffset += map.Extent();
+            // the indices of the next sub-domain start behind those of this one
+            subNetworkOffset += maxEntityIndex;
         }
     }
 
-- 
2.43.0


From 00d74c18900609401927fef09226de3289cf9cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 42/56] fix: .geo files in another folder merged a .brep file
 that does not exist

---
 frackit/io/gmshwriter.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frackit/io/gmshwriter.hh b/frackit/io/gmshwriter.hh
index 52dcacb..cdbcbb7 100644
--- a/frackit/io/gmshwriter.hh
+++ b/frackit/io/gmshwriter.hh
@@ -70,8 +70,9 @@ public:
         BRepWriter::write(fileName);
 
         std::ofstream geoFile(fileName + ".geo");
+        // Gmsh looks for the .brep file in the folder of the .geo file
         geoFile << "Merge \"";
-        geoFile << fileName + ".brep";
+        geoFile << fileName.substr(fileName.find_last_of('/') + 1) + ".brep";
         geoFile << "\";\n\n";
 
         geoFile << "// mesh size definitions\n";
-- 
2.43.0


From 851b4c9d13ac40c93a1b05e1f73f249d3a066652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 43/56] fix: rejected entities left an empty network in the
 builder

---
 frackit/entitynetwork/networkbuilder.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 08c2eb0..4605910 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -179,8 +179,10 @@ public:
         if (!subDomains_.empty() && getDimension(entity) >= domainDimension_)
             throw std::runtime_error("Entity dimension must be smaller than domain dimension");
 
+        // creating the shape may fail, make sure the builder is not modified then
+        const auto& shape = OCCUtilities::getShape(entity);
         entityDimension_ = entityDim;
-        networks_[subDomainId.get()].Append(OCCUtilities::getShape(entity));
+        networks_[subDomainId.get()].Append(shape);
     }
 
     /*!
@@ -543,8 +545,10 @@ public:
         if (!this->subDomains_.empty() && getDimension(entity) >= this->domainDimension_)
             throw std::runtime_error("Entity dimension must be smaller than domain dimension");
 
+        // creating the shape may fail, make sure the builder is not modified then
+        const auto& shape = OCCUtilities::getShape(entity);
         this->entityDimension_ = entityDim;
-        this->networks_[0].Append(OCCUtilities::getShape(entity));
+        this->networks_[0].Append(shape);
     }
 
     /*!
-- 
2.43.0


From 506e4cbe3127ebed609e53a9c788b2bca6316c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 44/56] fix: networks without entities or sub-domains had an
 indeterminate dimension

---
 frackit/entitynetwork/networkbuilder.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 4605910..6268647 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -207,6 +207,8 @@ public:
         subDomains_.clear();
         subDomainBoundsNetwork_.clear();
         networks_.clear();
+        domainDimension_ = 0;
+        entityDimension_ = 0;
     }
 
 protected:
@@ -492,8 +494,8 @@ protected:
     std::unordered_map<std::size_t, TopTools_ListOfShape> networks_;
 
     // dimensionalities
-    int domainDimension_;
-    int entityDimension_;
+    int domainDimension_ = 0;
+    int entityDimension_ = 0;
 
     // The shape of the union of the user-defined sub-domains
     TopoDS_Shape subDomainUnion_;
-- 
2.43.0


From edf7ff2a229b968a645fdeab2ce1bf50a9386a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 45/56] fix: the default tolerance of the first build was kept
 for later ones

---
 frackit/entitynetwork/networkbuilder.hh | 51 ++++++++++++++-----------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 6268647..ad45a46 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -94,24 +94,7 @@ public:
      */
     void setDefaultEpsilon()
     {
-        // if no entities have been set, set default precision
-        if (subDomains_.empty() && networks_.empty())
-            eps_ = Precision<ctype>::confusion();
-        else
-        {
-            // Use the minimum of all default epsilons of the sub-domains or entities
-            eps_ = std::numeric_limits<ctype>::max();
-            using std::min;
-
-            if (!subDomains_.empty())
-                for (const auto& sdPair : subDomains_)
-                    eps_ = min(eps_, defaultEpsilon(sdPair.second));
-            else if (!networks_.empty())
-                for (const auto& netPair : networks_)
-                    for (const auto& entity : netPair.second)
-                        eps_ = min(eps_, defaultEpsilon(entity));
-        }
-
+        eps_ = computeDefaultEpsilon_();
         epsilonIsSet_ = true;
     }
 
@@ -401,13 +384,35 @@ protected:
     }
 
     /*!
-     * \brief Returns the tolerance value.
+     * \brief Returns the tolerance value. If none was set,
+     *        it is computed from the current content.
      */
-    ctype getEpsilon_()
+    ctype getEpsilon_() const
+    { return epsilonIsSet_ ? eps_ : computeDefaultEpsilon_(); }
+
+    /*!
+     * \brief Computes a tolerance value using the extents
+     *        of the sub-domains or entities inserted so far.
+     */
+    ctype computeDefaultEpsilon_() const
     {
-        if (!epsilonIsSet_)
-            setDefaultEpsilon();
-        return eps_;
+        // if no entities have been set, use default precision
+        if (subDomains_.empty() && networks_.empty())
+            return Precision<ctype>::confusion();
+
+        // Use the minimum of all default epsilons of the sub-domains or entities
+        ctype eps = std::numeric_limits<ctype>::max();
+        using std::min;
+
+        if (!subDomains_.empty())
+            for (const auto& sdPair : subDomains_)
+                eps = min(eps, defaultEpsilon(sdPair.second));
+        else
+            for (const auto& netPair : networks_)
+                for (const auto& entity : netPair.second)
+                    eps = min(eps, defaultEpsilon(entity));
+
+        return eps;
     }
 
     /*!
-- 
2.43.0


From 49dbd212526806249b210b06d3d6e17f5eba21fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 46/56] fix: length of degenerated edges

Degenerated edges (poles of spheres, apices of cones) have no 3d curve:
computeLength() of such an edge, or of a wire containing one, dereferenced
a null handle.
---
 frackit/magnitude/length.hh  | 8 +++++++-
 frackit/occ/geomutilities.hh | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/frackit/magnitude/length.hh b/frackit/magnitude/length.hh
index b9f0c71..896f114 100644
--- a/frackit/magnitude/length.hh
+++ b/frackit/magnitude/length.hh
@@ -29,6 +29,7 @@
 #include <numeric>
 
 #include <Standard_Handle.hxx>
+#include <BRep_Tool.hxx>
 #include <TopoDS_Edge.hxx>
 #include <TopoDS_Wire.hxx>
 
@@ -79,7 +80,12 @@ ctype computeLength(const Handle(Geom_Curve)& curve)
  */
 template<class ctype = double>
 ctype computeLength(const TopoDS_Edge& edge)
-{ return computeLength(OCCUtilities::getGeomHandle(edge)); }
+{
+    // degenerated edges (e.g. the poles of spheres) have no extent
+    if (BRep_Tool::Degenerated(edge))
+        return 0.0;
+    return computeLength(OCCUtilities::getGeomHandle(edge));
+}
 
 /*!
  * \ingroup Magnitude
diff --git a/frackit/occ/geomutilities.hh b/frackit/occ/geomutilities.hh
index dec0eee..ee41d41 100644
--- a/frackit/occ/geomutilities.hh
+++ b/frackit/occ/geomutilities.hh
@@ -26,6 +26,8 @@
 #ifndef FRACKIT_GEOM_UTILITIES_HH
 #define FRACKIT_GEOM_UTILITIES_HH
 
+#include <stdexcept>
+
 // Handle class used by OpenCascade
 #include <Standard_Handle.hxx>
 
@@ -99,6 +101,8 @@ namespace OCCUtilities {
         // get unbounded curve and parameter bounds (umin, umax)
         Standard_Real uMin, uMax;
         Handle(Geom_Curve) curve = BRep_Tool::Curve(edge, uMin, uMax);
+        if (curve.IsNull())
+            throw std::runtime_error("getGeomHandle(): edge has no 3d curve");
 
         // return trimmed curve
         return new Geom_TrimmedCurve(curve, uMin, uMax);
-- 
2.43.0


From 4114b3dec86a7be3ffe3c7f3b5411266d7dd0f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 47/56] fix: intersection of nearly parallel planes

For angles between 1e-10 and 1e-8 OpenCascade reports no intersection line;
accessing the first line was undefined behaviour.
---
 frackit/intersection/algorithms/algo_plane_plane.hh | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_plane_plane.hh b/frackit/intersection/algorithms/algo_plane_plane.hh
index 6d257a1..e89f436 100644
--- a/frackit/intersection/algorithms/algo_plane_plane.hh
+++ b/frackit/intersection/algorithms/algo_plane_plane.hh
@@ -57,14 +57,17 @@ intersect_plane_plane(const Plane<ctype, 3>& plane1,
     const auto d1 = OCCUtilities::direction(plane1.normal());
     const auto d2 = OCCUtilities::direction(plane2.normal());
 
-    // if planes are identical, the result is a plane or empty
-    if (gp_Vec(d1).IsParallel(gp_Vec(d2), Precision<ctype>::angular()))
+    // if planes are parallel, the result is a plane or empty
+    const auto intersectParallel = [&] () -> ResultType
     {
         if (plane1.contains(plane2.supportingPoint(), eps))
             return ResultType( plane1 );
         else
             return ResultType( EmptyIntersection<3>() );
-    }
+    };
+
+    if (gp_Vec(d1).IsParallel(gp_Vec(d2), Precision<ctype>::angular()))
+        return intersectParallel();
 
     // find the intersection line between the two planes
     const auto c1 = OCCUtilities::point(plane1.supportingPoint());
@@ -76,6 +79,10 @@ intersect_plane_plane(const Plane<ctype, 3>& plane1,
     if (!interSection.IsDone())
         throw std::runtime_error("Could not perform plane-plane intersection");
 
+    // the planes are parallel within the (coarser) tolerance of OpenCascade
+    if (interSection.NbLines() == 0)
+        return intersectParallel();
+
     assert(interSection.NbLines() == 1);
     assert(!interSection.Line(1)->IsClosed());
     assert(interSection.Line(1)->IsCN(1));
-- 
2.43.0


From 41605b71ebb7caea568c7e01a3e9744df22433d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 48/56] fix: arcs of cylinder surface intersections within the
 given tolerance

The vertices found by the boolean operations may be off the supporting ellipse
by the tolerance, such that constructing the arc failed.
---
 .../algorithms/algo_cylsurface_planargeom.hh       | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh b/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
index 0bc8212..fed6bb9 100644
--- a/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
+++ b/frackit/intersection/algorithms/algo_cylsurface_planargeom.hh
@@ -41,6 +41,7 @@
 
 #include <frackit/geometry/cylindersurface.hh>
 #include <frackit/geometry/dimension.hh>
+#include <frackit/precision/precision.hh>
 
 #include <frackit/intersection/intersectiontraits.hh>
 #include <frackit/intersection/emptyintersection.hh>
@@ -70,7 +71,18 @@ namespace Detail {
     {
         using EllipseArc = EllipseArc<ctype, 3>;
 
-        const auto [p1, p2] = getWireTips<ctype>(wire);
+        // the tips may be off the ellipse by the tolerance of the boolean operations
+        const auto projectOnEllipse = [&ellipse] (const Point<ctype, 3>& p)
+        {
+            using std::min;
+            const auto eps = Precision<ctype>::confusion()*min(ellipse.majorAxisLength(), ctype(1.0));
+            return ellipse.contains(p, eps) ? p
+                   : ellipse.getPointFromAngle(ellipse.getAngle(p, /*checkIfOnEllipse*/false));
+        };
+
+        const auto tips = getWireTips<ctype>(wire);
+        const auto p1 = projectOnEllipse(tips.first);
+        const auto p2 = projectOnEllipse(tips.second);
 
         // select the arc whose center is on the set of given edges
         EllipseArc arc1(ellipse, p1, p2);
-- 
2.43.0


From 0cc24fa5cad6d6ed60d524a8d4f33d12834d7996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 49/56] fix: compute the distance to the boundary in the Python
 function computeDistanceToBoundary

---
 frackit/distance/distancetoboundary.hh        | 54 +++++++++++++++++++
 frackit/python/geometry/distancetoboundary.hh |  2 +-
 2 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/frackit/distance/distancetoboundary.hh b/frackit/distance/distancetoboundary.hh
index f0e739c..b2955df 100644
--- a/frackit/distance/distancetoboundary.hh
+++ b/frackit/distance/distancetoboundary.hh
@@ -224,6 +224,36 @@ ctype computeDistanceToBoundary(const TopoDS_Shape& shape,
                            extAlgo);
 }
 
+/*!
+ * \ingroup Distance
+ * \brief Compute the distance of a shape
+ *        to the bounding circles of a cylinder surface.
+ * \param shape The shape
+ * \param cylSurface The cylinder surface
+ * \param deflection The epsilon used in the BrepExtrema command
+ * \param extFlag The flag passed to the BrepExtrema command (MIN/MAX/MINMAX)
+ * \param extAlgo The algorithm passed to the BrepExtrema command (TREE/GRAD)
+ */
+template<class ctype>
+ctype computeDistanceToBoundary(const TopoDS_Shape& shape,
+                                const CylinderSurface<ctype>& cylSurface,
+                                ctype deflection = Precision<ctype>::confusion(),
+                                Extrema_ExtFlag extFlag = Extrema_ExtFlag_MINMAX,
+                                Extrema_ExtAlgo extAlgo = Extrema_ExtAlgo_Grad)
+{
+    using std::min;
+    return min(computeDistance(shape,
+                               OCCUtilities::getShape(cylSurface.lowerBoundingCircle()),
+                               deflection,
+                               extFlag,
+                               extAlgo),
+               computeDistance(shape,
+                               OCCUtilities::getShape(cylSurface.upperBoundingCircle()),
+                               deflection,
+                               extFlag,
+                               extAlgo));
+}
+
 /*!
  * \ingroup Distance
  * \brief Compute the distance of a shape
@@ -250,6 +280,30 @@ ctype computeDistanceToBoundary(const TopoDS_Shape& shape,
                            extAlgo);
 }
 
+/*!
+ * \ingroup Distance
+ * \brief Compute the distance of a shape
+ *        to the boundary of a TopoDS_Solid.
+ * \param shape The shape
+ * \param solid The TopoDS_Solid
+ * \param deflection The epsilon used in the BrepExtrema command
+ * \param extFlag The flag passed to the BrepExtrema command (MIN/MAX/MINMAX)
+ * \param extAlgo The algorithm passed to the BrepExtrema command (TREE/GRAD)
+ */
+template<class ctype = double>
+ctype computeDistanceToBoundary(const TopoDS_Shape& shape,
+                                const TopoDS_Solid& solid,
+                                ctype deflection = Precision<ctype>::confusion(),
+                                Extrema_ExtFlag extFlag = Extrema_ExtFlag_MINMAX,
+                                Extrema_ExtAlgo extAlgo = Extrema_ExtAlgo_Grad)
+{
+    return computeDistance(shape,
+                           BRepClass3d::OuterShell(solid),
+                           deflection,
+                           extFlag,
+                           extAlgo);
+}
+
 /*!
  * \ingroup Distance
  * \brief Compute the distance of a shape
diff --git a/frackit/python/geometry/distancetoboundary.hh b/frackit/python/geometry/distancetoboundary.hh
index d17517f..7e32a17 100644
--- a/frackit/python/geometry/distancetoboundary.hh
+++ b/frackit/python/geometry/distancetoboundary.hh
@@ -39,7 +39,7 @@ namespace Detail {
 
 template<class Geo1, class Geo2, class ctype>
 ctype computeDistanceToBoundary(const Geo1& geo1, const Geo2& geo2)
-{ return Frackit::computeDistance(getUnwrappedShape(geo1), getUnwrappedShape(geo2)); }
+{ return Frackit::computeDistanceToBoundary(getUnwrappedShape(geo1), getUnwrappedShape(geo2)); }
 
 } // end namespace Detail
 
-- 
2.43.0


From 11232b0f4b80c5c808838e28e1495b3727e9c245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 50/56] fix: evaluate constraints between a geometry and a
 list, and between two lists, in Python

---
 python/frackit/entitynetwork/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/frackit/entitynetwork/__init__.py b/python/frackit/entitynetwork/__init__.py
index 50ebc20..2c4abc3 100644
--- a/python/frackit/entitynetwork/__init__.py
+++ b/python/frackit/entitynetwork/__init__.py
@@ -16,7 +16,7 @@ class EntityNetworkConstraints(_entitynetwork._EntityNetworkConstraints):
         isListB = isinstance(b, list)
 
         def evalList(theList, geo):
-            return all( super(EntityNetworkConstraints, self).evaluate(item, b) for item in theList )
+            return all( super(EntityNetworkConstraints, self).evaluate(item, geo) for item in theList )
 
         if isListA and not isListB:
             return evalList(a, b)
-- 
2.43.0


From d74285b701e2331695549ab44c9c539253b30c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 51/56] fix: evaluate all registered id pairs in the Python
 constraints matrix

---
 python/frackit/entitynetwork/__init__.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/frackit/entitynetwork/__init__.py b/python/frackit/entitynetwork/__init__.py
index 2c4abc3..34286cb 100644
--- a/python/frackit/entitynetwork/__init__.py
+++ b/python/frackit/entitynetwork/__init__.py
@@ -72,19 +72,19 @@ class EntityNetworkConstraintsMatrix:
         if self.constraintsMatrix.get(id) == None:
             return True
 
-        for otherSetId in self.constraintsMatrix:
+        # constraints may be defined against sets that are themselves
+        # not constrained, thus, iterate over the entries for this id
+        for otherSetId, constraints in self.constraintsMatrix.get(id).items():
             entitySet = entitySets.get(otherSetId)
 
             # set is empty, skip rest
             if entitySet == None:
                 continue
 
-            elif self.constraintsMatrix.get(id).get(otherSetId) != None:
-                # a constraint is defined between the set with the given id
-                # and the set with otherSetId. Evaluate constraints for this pair.
-                constraints = self.constraintsMatrix.get(id).get(otherSetId)
-                if not constraints.evaluate(entitySet, entity):
-                    return False
+            # a constraint is defined between the set with the given id
+            # and the set with otherSetId. Evaluate constraints for this pair.
+            if not constraints.evaluate(entitySet, entity):
+                return False
 
         # no constraints violation detected
         return True
-- 
2.43.0


From 7058ac83ce97ece9e01c4684adb138f70d70c026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 52/56] fix: register either all or none of the given id pairs
 in the Python constraints matrix

---
 python/frackit/entitynetwork/__init__.py | 26 +++++++++---------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/python/frackit/entitynetwork/__init__.py b/python/frackit/entitynetwork/__init__.py
index 34286cb..3e6007a 100644
--- a/python/frackit/entitynetwork/__init__.py
+++ b/python/frackit/entitynetwork/__init__.py
@@ -36,26 +36,20 @@ class EntityNetworkConstraintsMatrix:
 
     def addConstraints(self, constraints, idPairs):
 
-        def addIdPair(pair):
+        if not isinstance(idPairs, list):
+            raise RuntimeError("This expects id pairs in the form of index lists")
+        if not isinstance(idPairs[0], list): # single id pair
+            idPairs = [idPairs]
+
+        # reject the registration as a whole before anything is modified
+        for i, pair in enumerate(idPairs):
             if len(pair) != 2:
                 raise RuntimeError("Id pairs are expected to be lists of length 2")
-
-            id1 = pair[0]
-            id2 = pair[1]
-            if self.constraintsMatrix.get(id1) == None:
-                self.constraintsMatrix[id1] = {id2 : constraints}
-            elif self.constraintsMatrix.get(id1).get(id2) == None:
-                self.constraintsMatrix[id1][id2] = constraints
-            else:
+            if pair[1] in self.constraintsMatrix.get(pair[0], {}) or pair in idPairs[:i]:
                 raise RuntimeError("Id pair already taken!")
 
-        if not isinstance(idPairs, list):
-            raise RuntimeError("This expects id pairs in the form of index lists")
-        if not isinstance(idPairs[0], list): # single id pair
-            addIdPair(idPairs)
-        else:
-            for pair in idPairs:
-                addIdPair(pair)
+        for id1, id2 in idPairs:
+            self.constraintsMatrix.setdefault(id1, {})[id2] = constraints
 
     def evaluate(self, entitySets, entity, id):
         """
-- 
2.43.0


From 42dfc2bfdda7d06def263bffb436153dd7cd3ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 53/56] fix: redraw inadmissible corner numbers and lengths in
 the Python polygon sampler, at most 100 times

---
 python/frackit/sampling/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/frackit/sampling/__init__.py b/python/frackit/sampling/__init__.py
index afe6ee4..3c7f213 100644
--- a/python/frackit/sampling/__init__.py
+++ b/python/frackit/sampling/__init__.py
@@ -231,8 +231,9 @@ class PolygonSampler:
         numCorners = 0
         while numCorners < 3 and count < 100:
             numCorners = self.numCornersSampler()
+            count += 1
 
-        if count == 100:
+        if numCorners < 3:
             raise RuntimeError("Did not obtain more than 3 corners after sampling " \
                                "100 times from the provided distribution.")
 
@@ -300,16 +301,16 @@ class PolygonSampler:
         dipLength = self.dipLengthSampler()
 
         countStrike = 0;
-        while strikeLength < 0.0 and countStrike < 100:
+        while strikeLength <= 0.0 and countStrike < 100:
             strikeLength = self.strikeLengthSampler()
             countStrike += 1
-        if countStrike == 100: raise RuntimeError("Could not sample strike dimension > 0.0 in 100 tries")
+        if strikeLength <= 0.0: raise RuntimeError("Could not sample strike dimension > 0.0 in 100 tries")
 
         countDip = 0;
-        while strikeLength < 0.0 and countDip < 100:
+        while dipLength <= 0.0 and countDip < 100:
             dipLength = self.dipLengthSampler()
             countDip += 1
-        if countDip == 100: raise RuntimeError("Could not sample dip dimension > 0.0 in 100 tries")
+        if dipLength <= 0.0: raise RuntimeError("Could not sample dip dimension > 0.0 in 100 tries")
 
         # construct edge vectors
         from frackit.geometry import Vector
-- 
2.43.0


From b21bcf7e521c3e60f213aa8f390723c3f4577f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 54/56] fix: sort the edges of small polygons by their angle in
 the Python polygon sampler

---
 python/frackit/sampling/__init__.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/python/frackit/sampling/__init__.py b/python/frackit/sampling/__init__.py
index 3c7f213..98cf6d3 100644
--- a/python/frackit/sampling/__init__.py
+++ b/python/frackit/sampling/__init__.py
@@ -319,9 +319,6 @@ class PolygonSampler:
         # returns the angle w.r.t the standard x-y basis of an edge vector
         import math
         def getAngle(v):
-            if abs(v.y()) < 1e-6: return 0.0 if v.x() > 0.0 else math.pi
-            if abs(v.x()) < 1e-6: return math.pi/2.0 if v.y() > 0.0 else 3.0*math.pi/2.0
-
             angle = math.atan2(v.y(), v.x())
             return 2.0*math.pi + angle if v.y() < 0.0 else angle
 
-- 
2.43.0


From bdbc26a40a6f28bcc48931682ed57f8b1078fe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 55/56] fix: use the overloads for ellipse arcs in the Python
 functions

---
 frackit/python/geometry/getboundingbox.hh    | 3 ++-
 frackit/python/geometry/magnitude.hh         | 3 ++-
 frackit/python/occutilities/breputilities.hh | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/frackit/python/geometry/getboundingbox.hh b/frackit/python/geometry/getboundingbox.hh
index d149a48..82fcd37 100644
--- a/frackit/python/geometry/getboundingbox.hh
+++ b/frackit/python/geometry/getboundingbox.hh
@@ -70,8 +70,9 @@ void registerGetBoundingBox(py::module& module)
     Detail::registerGetBoundingBox<Sphere<ctype>>(module, "sphere.");
 
     Detail::registerGetBoundingBox<Circle<ctype, 3>>(module, "circle in 3d space.");
-    Detail::registerGetBoundingBox<Ellipse<ctype, 3>>(module, "ellipse in 3d space.");
+    // arcs are ellipses in Python as well, thus, their overload has to come first
     Detail::registerGetBoundingBox<EllipseArc<ctype, 3>>(module, "ellipse arc in 3d space.");
+    Detail::registerGetBoundingBox<Ellipse<ctype, 3>>(module, "ellipse in 3d space.");
     Detail::registerGetBoundingBox<Polygon<ctype, 3>>(module, "polygon in 3d space.");
     Detail::registerGetBoundingBox<Quadrilateral<ctype, 3>>(module, "quadrilateral in 3d space.");
     Detail::registerGetBoundingBox<Segment<ctype, 3>>(module, "segment in 3d space.");
diff --git a/frackit/python/geometry/magnitude.hh b/frackit/python/geometry/magnitude.hh
index e3c536f..f866c15 100644
--- a/frackit/python/geometry/magnitude.hh
+++ b/frackit/python/geometry/magnitude.hh
@@ -86,8 +86,9 @@ void registerMagnitude(py::module& module)
     Detail::registerMagnitude< Vector<ctype, 3> >(module);
     Detail::registerMagnitude< Segment<ctype, 3> >(module);
     Detail::registerMagnitude< Circle<ctype, 3> >(module);
-    Detail::registerMagnitude< Ellipse<ctype, 3> >(module);
+    // arcs are ellipses in Python as well, thus, their overload has to come first
     Detail::registerMagnitude< EllipseArc<ctype, 3> >(module);
+    Detail::registerMagnitude< Ellipse<ctype, 3> >(module);
     Detail::registerMagnitude< Disk<ctype> >(module);
     Detail::registerMagnitude< Triangle<ctype, 3> >(module);
     Detail::registerMagnitude< Quadrilateral<ctype, 3> >(module);
diff --git a/frackit/python/occutilities/breputilities.hh b/frackit/python/occutilities/breputilities.hh
index 12c3f05..504ef64 100644
--- a/frackit/python/occutilities/breputilities.hh
+++ b/frackit/python/occutilities/breputilities.hh
@@ -326,8 +326,9 @@ void registerBRepUtilities(pybind11::module& module)
 
     // register geometry to shape conversions
     module.def("getShape", &OCCUtilities::getShape<Circle<ctype, 3>>, "Returns the OCC BRep of a 3d circle");
-    module.def("getShape", &OCCUtilities::getShape<Ellipse<ctype, 3>>, "Returns the OCC BRep of a 3d ellipse");
+    // arcs are ellipses in Python as well, thus, their overload has to come first
     module.def("getShape", &OCCUtilities::getShape<EllipseArc<ctype, 3>>, "Returns the OCC BRep of a 3d ellipse arc");
+    module.def("getShape", &OCCUtilities::getShape<Ellipse<ctype, 3>>, "Returns the OCC BRep of a 3d ellipse");
     module.def("getShape", &OCCUtilities::getShape<Quadrilateral<ctype, 3>>, "Returns the OCC BRep of a 3d quadrilateral");
     module.def("getShape", &OCCUtilities::getShape<Polygon<ctype, 3>>, "Returns the OCC BRep of a 3d polygon");
     module.def("getShape", &OCCUtilities::getShape<Disk<ctype>>, "Returns the OCC BRep of a disk");
-- 
2.43.0


From 86aa74f4b4bf69ef398bd6f38cea92bb9e55cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 56/56] fix: return the ellipse in EllipseArc.supportingEllipse
 in Python

---
 frackit/python/geometry/ellipsearc.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frackit/python/geometry/ellipsearc.hh b/frackit/python/geometry/ellipsearc.hh
index 895f067..13b829f 100644
--- a/frackit/python/geometry/ellipsearc.hh
+++ b/frackit/python/geometry/ellipsearc.hh
@@ -52,7 +52,8 @@ namespace Detail {
         cls.def("name", &EllipseArc::name, "name of the geometry");
         cls.def("source", &EllipseArc::source, "source point of the arc");
         cls.def("target", &EllipseArc::target, "target point of the arc");
-        cls.def("supportingEllipse", &EllipseArc::supportingEllipse, "returns the supporting ellipse");
+        // return a copy, as a reference would be cast down to the arc
+        cls.def("supportingEllipse", [] (const EllipseArc& ea) -> Ellipse { return ea.supportingEllipse(); }, "returns the supporting ellipse");
         cls.def("isFullEllipse", &EllipseArc::isFullEllipse, "returns true if the arc describes a full ellipse");
 
         // angles of source/target points
-- 
2.43.0

