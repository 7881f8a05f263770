From adb8ab56d34bdfe8cd8e4b914dee6c325d001603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 1/4] fix: CheckIntersection misses crossings with
 axis-parallel segments

The bounding-box pre-test compared with <, so the empty extent of a horizontal
or vertical segment never overlapped anything.
---
 src/geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry.cpp b/src/geometry.cpp
index 259ff3c..f67315d 100644
--- a/src/geometry.cpp
+++ b/src/geometry.cpp
@@ -145,7 +145,7 @@ bool CheckIntersection(double ax, double ay,
   {
     if (a > b) std::swap(a, b);
     if (c > d) std::swap(c, d);
-    return std::max(a,c) < std::min(b,d);
+    return std::max(a,c) <= std::min(b,d);
   };
   return boundBoxCheck(ax, bx, cx, dx) &&
          boundBoxCheck(ay, by, cy, dy) &&
-- 
2.43.0


From 0afd19ebd23c73a9d2cd7692a60933759a6a69d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:40 +0000
Subject: [PATCH 2/4] fix: MeasurementsPreprocessor reads uninitialised last
 signal, sensor and nmea state

---
 src/measurements/measurement_preprocessor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/measurements/measurement_preprocessor.cpp b/src/measurements/measurement_preprocessor.cpp
index 1129dc1..a422125 100644
--- a/src/measurements/measurement_preprocessor.cpp
+++ b/src/measurements/measurement_preprocessor.cpp
@@ -85,8 +85,11 @@ MeasurementsPreprocessor::MeasurementsPreprocessor(
   , mUseWifi(checkUseWifi(navProps))
   , mUseBle(checkUseBle(navProps))
   , mIsTracking(navProps.commonSettings.useTracking)
+  , mLastSignalTs(0)
   , mRadiosBuffer(createRadioMeasurementBuffer(navProps))
   , mCurrentTs(0)
+  , mSensor()
+  , mNmea()
 { }
 
 void MeasurementsPreprocessor::updateMeasurements(const Measurement& navMsg)
-- 
2.43.0


From bba7798096bdb6220a7ec7ab0027bd6afe83a1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:27 +0000
Subject: [PATCH 3/4] fix: calcKHeaviestRefPointsAverage selects no points

partial_sort_copy fills the existing range of its destination, which reserve() leaves empty: the average was always (0, 0).
---
 src/knn/knn_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index 1c40fc6..72a2c03 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -355,7 +355,7 @@ XYPoint calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
 {
   k = std::min(k, rpToWeight.size());
   std::vector<std::pair<ReferencePointId, double>> kHeaviestPoints;
-  kHeaviestPoints.reserve(k);
+  kHeaviestPoints.resize(k);
   std::partial_sort_copy(
       rpToWeight.begin(), rpToWeight.end(),
       kHeaviestPoints.begin(), kHeaviestPoints.end(),
-- 
2.43.0


From 67761669948659c131519d337415acf4a431b4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:27 +0000
Subject: [PATCH 4/4] fix: triangulate() gives up all later levels when one
 level has no triangulation

Reference points on one line (no triangles) left every level added after that one without triangles, so navigation there always failed.
---
 src/knn/knn_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index 72a2c03..cb365d3 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -54,8 +54,8 @@ std::map<LevelId, std::vector<RefPointsTriangle>> triangulate(const std::shared_
       std::vector<Triangle> triangles = TriangulateVertices(vertices, maxedge);
       if (triangles.empty())
       {
-        // triangulation failed!
-        return levelTriangles;
+        // triangulation failed: this level has no triangles, the others may have
+        continue;
       }
 #ifdef DEBUG_OUTPUT_TRIANGULATION
       std::ofstream debugOs;
-- 
2.43.0

