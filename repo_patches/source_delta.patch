From 028fab2076e36123e19194b364a6a658d0e2d4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 01/47] fix: (de)serializer accesses misaligned values and
 reads past the end of data

---
 src/core/maps/rescalable_caching_grid_map.h |  5 ++++-
 src/core/serialization.h                    | 12 ++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/core/maps/rescalable_caching_grid_map.h b/src/core/maps/rescalable_caching_grid_map.h
index a723ff8..3074f65 100644
--- a/src/core/maps/rescalable_caching_grid_map.h
+++ b/src/core/maps/rescalable_caching_grid_map.h
@@ -5,6 +5,7 @@
 #include <cassert>
 #include <limits>
 #include <utility>
+#include <stdexcept>
 #include <iterator>
 #include <algorithm>
 
@@ -131,7 +132,9 @@ public:
       decltype(data.size()) chunk_size;
       map_d >> chunk_size;
       auto ptr = data.begin() + map_d.pos();
-      assert(ptr + chunk_size <= data.end() && "Unable to load map");
+      if (data.size() - map_d.pos() < chunk_size) {
+        throw std::out_of_range{"Unable to load map: unexpected end of data"};
+      }
       auto map_chunk = std::vector<char>{};
       std::copy(ptr, ptr + chunk_size, std::back_inserter(map_chunk));
       map_d.inc_pose(chunk_size);
diff --git a/src/core/serialization.h b/src/core/serialization.h
index 48592b5..b9ca8fa 100644
--- a/src/core/serialization.h
+++ b/src/core/serialization.h
@@ -3,6 +3,8 @@
 
 #include <memory>
 #include <vector>
+#include <cstring>
+#include <stdexcept>
 #include <stdint.h>
 #include <iostream>
 
@@ -29,7 +31,8 @@ public:
     void add_value(Type value) {
         size_t ptr = data.size();
         data.resize(data.size() + sizeof(Type));
-        *reinterpret_cast<Type*>(data.data() + ptr) = value;
+        // NB: the destination may be misaligned for Type
+        std::memcpy(data.data() + ptr, &value, sizeof(Type));
     }
 
     void append(const std::vector<char>& new_data) {
@@ -80,7 +83,12 @@ public:
 
     template<typename Type>
     Type read_value() {
-        Type value = *reinterpret_cast<const Type*>(data.data() + ptr);
+        if (data.size() < ptr || data.size() - ptr < sizeof(Type)) {
+            throw std::out_of_range{"Deserializer: unexpected end of data"};
+        }
+        Type value;
+        // NB: the source may be misaligned for Type
+        std::memcpy(&value, data.data() + ptr, sizeof(Type));
         ptr += sizeof(Type);
         return value;
     }
-- 
2.43.0


From 151c5d41cd6c265a42db262ecee47824dd3a6745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 02/47] fix: restored mean-probability and gmapping cells
 forget their update history

---
 src/core/maps/naive_grid_cells.h        | 12 ++++++++++++
 src/slams/gmapping/gmapping_grid_cell.h | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/core/maps/naive_grid_cells.h b/src/core/maps/naive_grid_cells.h
index 3f6f395..d62fbc0 100644
--- a/src/core/maps/naive_grid_cells.h
+++ b/src/core/maps/naive_grid_cells.h
@@ -39,6 +39,18 @@ public:
     GridCell::on_update();
   }
 
+  std::vector<char> serialize() const override {
+    Serializer s(GridCell::serialize());
+    s << _n;
+    return s.result();
+  }
+
+  size_t deserialize(const std::vector<char>& data, size_t pos = 0) override {
+    Deserializer d(data, GridCell::deserialize(data, pos));
+    d >> _n;
+    return d.pos();
+  }
+
 private:
   double _n;
 };
diff --git a/src/slams/gmapping/gmapping_grid_cell.h b/src/slams/gmapping/gmapping_grid_cell.h
index 7ee57a9..ac9c38b 100644
--- a/src/slams/gmapping/gmapping_grid_cell.h
+++ b/src/slams/gmapping/gmapping_grid_cell.h
@@ -37,6 +37,18 @@ public:
     return 1.0 - similarity;
   }
 
+  std::vector<char> serialize() const override {
+    Serializer s(GridCell::serialize());
+    s << _hits << _tries << obst.x << obst.y;
+    return s.result();
+  }
+
+  size_t deserialize(const std::vector<char>& data, size_t pos = 0) override {
+    Deserializer d(data, GridCell::deserialize(data, pos));
+    d >> _hits >> _tries >> obst.x >> obst.y;
+    return d.pos();
+  }
+
 private:
   int _hits, _tries;
   Point2D obst;
-- 
2.43.0


From d876c60cc1ace5b39705c2fcf0450becd102d023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 03/47] fix: streaming a byte vector to Serializer writes the
 vector object instead of its bytes

---
 src/core/serialization.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/serialization.h b/src/core/serialization.h
index b9ca8fa..e446e48 100644
--- a/src/core/serialization.h
+++ b/src/core/serialization.h
@@ -63,7 +63,6 @@ Serializer& operator<<(Serializer& s, Type value) {
     return s;
 }
 
-template<>
 inline Serializer& operator<<(Serializer& s, const std::vector<char>& data) {
     s.append(data);
     return s;
-- 
2.43.0


From c0b3c32926fc5d2a22b8425809e5f21be3acb6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 04/47] fix: loading a map from empty or foreign data reads an
 invalid bool or uses a missing level

---
 src/core/maps/rescalable_caching_grid_map.h | 3 +++
 src/core/serialization.h                    | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/core/maps/rescalable_caching_grid_map.h b/src/core/maps/rescalable_caching_grid_map.h
index 3074f65..52765e2 100644
--- a/src/core/maps/rescalable_caching_grid_map.h
+++ b/src/core/maps/rescalable_caching_grid_map.h
@@ -143,6 +143,9 @@ public:
       curr_map.load_state(map_chunk);
       _map_cache->push_back(std::make_unique<BackGridMap>(std::move(curr_map)));
     }
+    if (_map_cache->empty()) {
+      throw std::out_of_range{"Unable to load map: no data"};
+    }
     ensure_map_cache_is_continuous();
     set_scale_id(finest_scale_id());
   }
diff --git a/src/core/serialization.h b/src/core/serialization.h
index e446e48..9604e73 100644
--- a/src/core/serialization.h
+++ b/src/core/serialization.h
@@ -111,6 +111,12 @@ private:
     const std::vector<char>& data;
 };
 
+// NB: bytes other than 0/1 are not valid bool representations
+template<>
+inline bool Deserializer::read_value<bool>() {
+    return read_value<unsigned char>() != 0;
+}
+
 template<typename Type>
 Deserializer& operator>>(Deserializer& d, Type& value) {
     value = d.read_value<Type>();
-- 
2.43.0


From f8f8d28b9eaa98d045809c5c18622ce03567c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 05/47] fix: TBM-consistent cell reports NaN when nothing is
 known about it

---
 src/core/maps/tbm_grid_cells.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/maps/tbm_grid_cells.h b/src/core/maps/tbm_grid_cells.h
index 73d22e6..bfb7810 100644
--- a/src/core/maps/tbm_grid_cells.h
+++ b/src/core/maps/tbm_grid_cells.h
@@ -88,6 +88,8 @@ protected:
   // TBM -> Occ is consistent with AOO -> TBM
   Occupancy tbm2occ(const TBM& tbm) const override {
     double qual = tbm.occupied() + tbm.empty();
+    // NB: no evidence (total ignorance), 0/0 otherwise
+    if (qual == 0.0) { return Occupancy { 0.5, qual }; }
     double p_occu = tbm.occupied() / qual;
     return Occupancy { p_occu, qual };
   }
-- 
2.43.0


From f6b3eb6f92be5ff23cc5883a30c673403f6eaa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 06/47] fix: beam traversal loses its error term when it passes
 through a cell corner

---
 src/core/maps/regular_squares_grid.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/maps/regular_squares_grid.h b/src/core/maps/regular_squares_grid.h
index 9485a9d..5a3fdf7 100644
--- a/src/core/maps/regular_squares_grid.h
+++ b/src/core/maps/regular_squares_grid.h
@@ -85,10 +85,9 @@ public:
       double abs_err_diff = std::abs(e_y) - std::abs(e_x);
       if (are_equal(abs_err_diff, 0)) {
         // through cell diagonal or coord grid's line aligned
-        if      (pnt.x == end.x) { pnt.y += inc_y; }
-        else if (pnt.y == end.y) { pnt.x += inc_x; }
-        else { pnt.x += inc_x; pnt.y += inc_y; }
-        e = 0;
+        if      (pnt.x == end.x) { pnt.y += inc_y; e = e_y; }
+        else if (pnt.y == end.y) { pnt.x += inc_x; e = e_x; }
+        else { pnt.x += inc_x; pnt.y += inc_y; e = e_x + e_y_inc; }
       } else if (0 < abs_err_diff) {
         pnt.x += inc_x;
         e = e_x;
-- 
2.43.0


From efd219ec3a88df6863073cf868d2efa1e6e5f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 07/47] fix: a scan shorter than its margins is read out of
 bounds

---
 src/core/maps/grid_map_scan_adders.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/maps/grid_map_scan_adders.h b/src/core/maps/grid_map_scan_adders.h
index a912655..66db0e6 100644
--- a/src/core/maps/grid_map_scan_adders.h
+++ b/src/core/maps/grid_map_scan_adders.h
@@ -55,7 +55,9 @@ public:
                        const LaserScan2D &scan,
                        double scan_quality,
                        double scan_margin = 0.0) const {
-    if (scan.points().empty()) { return map; }
+    if (scan.points().size() < 2 * scan_margin + 1) {
+      return map; // nothing is left between the margins
+    }
 
     const auto rp = pose.point();
     scan.trig_provider->set_base_angle(pose.theta);
-- 
2.43.0


From d257f27623edf5bb8d60f1b70504a14a60c7b4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 08/47] fix: a scan that leaves a fixed-size map is written out
 of its bounds

---
 src/core/maps/grid_map_scan_adders.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/maps/grid_map_scan_adders.h b/src/core/maps/grid_map_scan_adders.h
index 66db0e6..ce6ae6d 100644
--- a/src/core/maps/grid_map_scan_adders.h
+++ b/src/core/maps/grid_map_scan_adders.h
@@ -153,11 +153,13 @@ protected:
     auto pt_bounds = map.world_cell_bounds(pts.back());
     auto base_occup = estimate_occupancy(beam, pt_bounds, is_occ);
     auto occ_aoo = AOO{is_occ, base_occup, beam.end(), scan_quality};
-    map.update(pts.back(), occ_aoo);
+    // NB: a beam may leave a map of a fixed size
+    if (map.has_cell(pts.back())) { map.update(pts.back(), occ_aoo); }
     pts.pop_back();
 
     auto empty_aoo = AOO{false, {0, 0}, beam.end(), scan_quality};
     for (const auto &pt : pts) {
+      if (!map.has_cell(pt)) { continue; }
       const auto dist_sq = pt.dist_sq(obst_pt);
       auto pt_bounds = map.world_cell_bounds(pt);
       empty_aoo.is_occupied = false;
-- 
2.43.0


From b862f0218d629e8620779bb2f4ca170022bb9880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 09/47] fix: area estimator shifts on-edge beams by another
 cell's size and aborts on a zero-length one

---
 src/core/maps/area_occupancy_estimator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 0667d30..1fed1eb 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -68,8 +68,8 @@ private: // methods
   Segment2D ensure_segment_not_on_edge(const Segment2D& s,
                                        const Rectangle &cell) const {
     // NB: Invariant: beg/end movement should not effect intersections
-    static const double Shift_Amount = _low_qual * cell.side();
-    if (!cell.has_on_edge_line(s)) { return s; }
+    const double Shift_Amount = _low_qual * cell.side();
+    if (s.is_point() || !cell.has_on_edge_line(s)) { return s; }
 
     Point2D shift;
     if (s.is_horiz()) {
-- 
2.43.0


From 4efcbbd75717eacd4393779b42ad95fe5676ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 10/47] fix: area estimator aborts when rounding makes a chunk
 exceed its cell

---
 src/core/maps/area_occupancy_estimator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 1fed1eb..e8c4a42 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -206,7 +206,9 @@ private: // methods
       // NOTE: cell is supposed to be a square
       area = 0.5 * (bnds.top() - bnds.bot()) * base_sum;
     }
-    assert(0 <= area && area <= bnds.area() && "BUG: AOE area estimation");
+    assert(0 <= area && less_or_equal(area, bnds.area()) &&
+           "BUG: AOE area estimation");
+    area = std::min(area, bnds.area()); // fp rounding errors
     if (is_occ &&
         are_on_the_same_side(inters[0], inters[1],
                              beam.beg(), {corner_x, corner_y})) {
-- 
2.43.0


From 762c33c67ed59bb994e2bdc5e823d64aa67fccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 11/47] fix: area estimator mixes up the sides of an obstacle
 when the cell is away from the origin

---
 src/core/maps/area_occupancy_estimator.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index e8c4a42..3fe97a4 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -209,19 +209,19 @@ private: // methods
     assert(0 <= area && less_or_equal(area, bnds.area()) &&
            "BUG: AOE area estimation");
     area = std::min(area, bnds.area()); // fp rounding errors
-    if (is_occ &&
-        are_on_the_same_side(inters[0], inters[1],
-                             beam.beg(), {corner_x, corner_y})) {
+    if (is_occ && is_before_beam_end(beam, bnds, corner_x, corner_y)) {
       area = bnds.area() - area;
     }
     return area;
   }
 
-  bool are_on_the_same_side(const Point2D &line_p1, const Point2D &line_p2,
-                            const Point2D &p1, const Point2D &p2) {
-    double dx = line_p2.x - line_p1.x, dy = line_p2.y - line_p1.y;
-    return 0 < (dy*p1.y - dx*p1.x + dy*p1.x - dx*p1.y) *
-               (dy*p2.y - dx*p2.x + dy*p2.x - dx*p2.y);
+  // NB: chunk is cut by a line that is orthogonal to beam,
+  //     so the corner and its opposite are never on the same side of the line
+  bool is_before_beam_end(const Segment2D &beam, const Rectangle &bnds,
+                          double corner_x, double corner_y) const {
+    auto center = bnds.center();
+    return (beam.end().x - beam.beg().x) * (corner_x - center.x) +
+           (beam.end().y - beam.beg().y) * (corner_y - center.y) < 0;
   }
 
   Occupancy estimate_occupancy(double chunk_area, double total_area,
-- 
2.43.0


From 479f83a5f0d81478fa4933b2ac538768f2970d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 12/47] fix: an unknown scan probability is never recognised

---
 src/core/scan_matchers/grid_scan_matcher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/grid_scan_matcher.h b/src/core/scan_matchers/grid_scan_matcher.h
index aa36420..4cbceb6 100644
--- a/src/core/scan_matchers/grid_scan_matcher.h
+++ b/src/core/scan_matchers/grid_scan_matcher.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_CORE_GRID_SCAN_MATCHER_H
 #define SLAM_CTOR_CORE_GRID_SCAN_MATCHER_H
 
+#include <cmath>
 #include <vector>
 #include <memory>
 #include <algorithm>
@@ -98,7 +99,7 @@ public:
   }
 
   static bool is_prob_unknown(double probability) {
-    return probability == unknown_probability();
+    return std::isnan(probability); // NB: NaN != NaN
   }
 
   OOPE occupancy_observation_probability_estimator() const { return _oope; }
-- 
2.43.0


From 5464974ff56241c7a126e770e61ebb4ef395ed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 13/47] fix: scan points that leave a fixed-size map during
 matching are read out of its bounds

---
 src/core/scan_matchers/weighted_mean_point_probability_spe.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/scan_matchers/weighted_mean_point_probability_spe.h b/src/core/scan_matchers/weighted_mean_point_probability_spe.h
index 409a4aa..5a44b9b 100644
--- a/src/core/scan_matchers/weighted_mean_point_probability_spe.h
+++ b/src/core/scan_matchers/weighted_mean_point_probability_spe.h
@@ -112,6 +112,8 @@ public:
       observation.obstacle = params.scan_is_prerotated ?
         sp.move_origin(pose.x, pose.y) :
         sp.move_origin(pose.x, pose.y, scan.trig_provider);
+      // NB: the scan may be filtered at another pose
+      if (!map.has_cell(map.world_to_cell(observation.obstacle))) { continue; }
       // area around the obstacle taken into account
       // Q: move obst_area to AOO?
       auto obs_area = params.sp_analysis_area.move_center(observation.obstacle);
-- 
2.43.0


From 74d76c0a0f4f5797d39208503b2032d450e725f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 14/47] fix: rectangles that overlap like a cross or a strip
 are reported as disjoint

---
 src/core/geometry_primitives.h | 52 ++++------------------------------
 1 file changed, 6 insertions(+), 46 deletions(-)

diff --git a/src/core/geometry_primitives.h b/src/core/geometry_primitives.h
index 3249b7a..e670320 100644
--- a/src/core/geometry_primitives.h
+++ b/src/core/geometry_primitives.h
@@ -249,8 +249,12 @@ public:
     return are_ordered(left(), x, right()) && are_ordered(bot(), y, top());
   }
 
-  auto intersect(const LightWeightRectangle &that) const {
-    return intersect_internal(that, false);
+  LightWeightRectangle intersect(const LightWeightRectangle &that) const {
+    auto ibot = std::max(bot(), that.bot()), itop = std::min(top(), that.top());
+    auto ileft = std::max(left(), that.left()),
+         iright = std::min(right(), that.right());
+    if (itop < ibot || iright < ileft) { return LightWeightRectangle{}; }
+    return LightWeightRectangle{ibot, itop, ileft, iright};
   }
 
   auto overlap(const LightWeightRectangle &that) const {
@@ -265,50 +269,6 @@ public:
     return *this == that ? 1.0 : 0.0;
   }
 
-private:
-
-  LightWeightRectangle intersect_internal(const LightWeightRectangle &that,
-                                          bool reversed = false) const {
-    // NB: a naive implementation; straightforward and correct (I hope so).
-    // IDEA: shrink -this- to intersection rectangle.
-
-    // FIXME: @see unit tests
-    unsigned contained_corners_nm = 0;
-    auto cleft = left(), cright = right(), ctop = top(), cbot = bot();
-
-    #define PROCESS_CORNER(horz_id, vert_id)                    \
-      if (contains(that.horz_id(), that.vert_id())) {           \
-        ++contained_corners_nm;                                 \
-        c##horz_id = that.horz_id();                            \
-        c##vert_id = that.vert_id();                            \
-      }
-
-    PROCESS_CORNER(left, bot);
-    PROCESS_CORNER(right, bot);
-    PROCESS_CORNER(left, top);
-    PROCESS_CORNER(right, top);
-
-    #undef PROCESS_CORNER
-
-    // handle corner cases based on a number of contained corners (pun intended)
-    switch (contained_corners_nm) {
-    case 0:
-      /*
-       * Either doesn't overlap or the overlap must be detected
-       * by this-in-that corners analysis (reversed).
-       */
-      // FIXME: awkward stuff
-      return reversed ? LightWeightRectangle{}
-                      : that.intersect_internal(*this, true);
-    case 1: case 2: case 4:
-      break;
-    case 3: default:
-      assert(0 && "Unexpected inclusions number");
-    }
-
-    return LightWeightRectangle{cbot, ctop, cleft, cright};
-  }
-
 private: // fields
   double _bot, _top, _left, _right;
 };
-- 
2.43.0


From fe65c7f97c9e87b74840f25c315d2c874e0ebb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 15/47] fix: gmapping observation probability is answered from
 a stale cache

---
 src/slams/gmapping/gmapping_occupancy_observation_pe.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/slams/gmapping/gmapping_occupancy_observation_pe.h b/src/slams/gmapping/gmapping_occupancy_observation_pe.h
index 08f3fe4..01af179 100644
--- a/src/slams/gmapping/gmapping_occupancy_observation_pe.h
+++ b/src/slams/gmapping/gmapping_occupancy_observation_pe.h
@@ -13,15 +13,12 @@ class GmappingOccupancyObservationPE
 public:
   GmappingOccupancyObservationPE(double fullness_th, unsigned window_size)
     : OccupancyObservationProbabilityEstimator{std::make_shared<MockOIE>()}
-    , Fullness_Th{fullness_th}, Window_Sz{int(window_size)}, _cached_prob{-1} {}
+    , Fullness_Th{fullness_th}, Window_Sz{int(window_size)} {}
   double probability(const AreaOccupancyObservation &aoo,
                      const LightWeightRectangle &,
                      const GridMap &map) const override {
     assert(aoo.is_occupied);
     auto sp_coord = map.world_to_cell(aoo.obstacle);
-    if (sp_coord == _cached_coord && _cached_prob != -1) {
-      return _cached_prob;
-    }
 
     double best_prob = 0;
     for (int d_x = -Window_Sz; d_x <= Window_Sz; ++d_x) {
@@ -33,15 +30,12 @@ public:
       }
     }
 
-    _cached_coord = sp_coord;
-    return _cached_prob = best_prob;
+    return best_prob;
   }
 
 private:
   const double Fullness_Th;
   const int Window_Sz;
-  mutable DiscretePoint2D _cached_coord;
-  mutable double _cached_prob;
 };
 
 
-- 
2.43.0


From be4b9544a695b45ec09521b1f90a202479812783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 16/47] fix: brute force enumerators keep searching around the
 first pose they were given

---
 src/core/scan_matchers/brute_force_scan_matcher.h | 1 +
 src/core/scan_matchers/pose_enumerators.h         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/scan_matchers/brute_force_scan_matcher.h b/src/core/scan_matchers/brute_force_scan_matcher.h
index a43ae5c..aa506f1 100644
--- a/src/core/scan_matchers/brute_force_scan_matcher.h
+++ b/src/core/scan_matchers/brute_force_scan_matcher.h
@@ -34,6 +34,7 @@ public:
   }
 
   void reset() override {
+    _base_pose_is_set = false;
     _x = _from_x;
     _y = _from_y;
     _t = _from_t;
diff --git a/src/core/scan_matchers/pose_enumerators.h b/src/core/scan_matchers/pose_enumerators.h
index 9e914b7..214d40c 100644
--- a/src/core/scan_matchers/pose_enumerators.h
+++ b/src/core/scan_matchers/pose_enumerators.h
@@ -42,6 +42,7 @@ public:
   }
 
   void reset() override {
+    _base_pose_is_set = false;
     _dir = _from_dir;
     _dst = _from_dst;
   }
-- 
2.43.0


From 19bef4f478d31db01b3b756afa1154ed69438209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 17/47] fix: hill climbing ignores the requested frame
 alignment

---
 src/core/scan_matchers/hill_climbing_scan_matcher.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/scan_matchers/hill_climbing_scan_matcher.h b/src/core/scan_matchers/hill_climbing_scan_matcher.h
index f5795bc..25e1ae6 100644
--- a/src/core/scan_matchers/hill_climbing_scan_matcher.h
+++ b/src/core/scan_matchers/hill_climbing_scan_matcher.h
@@ -76,7 +76,8 @@ public:
                                     double frame_rotation = 0)
     : _max_failed_rounds{max_failed_rounds}
     , _base_translation_delta{translation_delta}
-    , _base_rotation_delta{rotation_delta} {
+    , _base_rotation_delta{rotation_delta}
+    , _frame_rotation{frame_rotation} {
     reset();
   }
 
@@ -111,12 +112,13 @@ public:
 
 private:
   void reset_round(double translation_delta, double rotation_delta) {
-    _round_pe = {_translation_delta, _rotation_delta};
+    _round_pe = {_translation_delta, _rotation_delta, _frame_rotation};
     _round_failed = true;
   }
 private:
   unsigned _max_failed_rounds;
   double _base_translation_delta, _base_rotation_delta;
+  double _frame_rotation;
 
   unsigned _failed_rounds;
   double _translation_delta, _rotation_delta;
@@ -156,7 +158,8 @@ private:
     if (!_use_frame_alignement) { return; }
     auto hist = AngleHistogram{20};
     hist.reset(scan);
-    double frame_rot = hist.major_direction();
+    // NB: a direction is unknown unless there is a pair of points
+    double frame_rot = scan.points().size() < 2 ? 0 : hist.major_direction();
 
     auto pe = std::make_shared<HCPE>(_max_lookup_failed_attempts,
         _translation_delta, _rotation_delta, frame_rot);
-- 
2.43.0


From b903ea15749dfb194dbc2f5db4bb11aa99e78877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 18/47] fix: coarse map levels added on growth know nothing
 about the areas they cover

---
 src/core/maps/rescalable_caching_grid_map.h |  4 ++
 src/core/scan_matchers/m3rsm_engine.h       | 61 +++++++++++++++------
 2 files changed, 47 insertions(+), 18 deletions(-)

diff --git a/src/core/maps/rescalable_caching_grid_map.h b/src/core/maps/rescalable_caching_grid_map.h
index 52765e2..cfba224 100644
--- a/src/core/maps/rescalable_caching_grid_map.h
+++ b/src/core/maps/rescalable_caching_grid_map.h
@@ -155,6 +155,9 @@ protected:
   // coraser areas update policy
   virtual void pre_area_update(const AreaId &area_id) {}
   virtual void post_area_update(const AreaId &area_id) {}
+  // a coarser level is about to be added above an already filled one
+  virtual void init_coarser_map(GridMap &coarser_map,
+                                const GridMap &finer_map) const {}
 
   const GridMap& map(unsigned scale_id) const {
     return *(*_map_cache)[scale_id];
@@ -195,6 +198,7 @@ protected:
 
       auto map_params = GridMapParams{pc_w, pc_h, pc_scale};
       auto map = std::make_unique<BackGridMap>(cell_prototype(), map_params);
+      init_coarser_map(*map, *(*_map_cache)[_map_cache->size() - 2]);
       _map_cache->insert((_map_cache->rbegin() + 1).base(), std::move(map));
     }
   }
diff --git a/src/core/scan_matchers/m3rsm_engine.h b/src/core/scan_matchers/m3rsm_engine.h
index b4bb537..d945253 100644
--- a/src/core/scan_matchers/m3rsm_engine.h
+++ b/src/core/scan_matchers/m3rsm_engine.h
@@ -103,26 +103,51 @@ protected:
     auto modified_space = active_map().world_cell_bounds(area_id);
 
     for (unsigned coarser_scale_id = scale_id() + 1;
-         coarser_scale_id <= coarsest_scale_id(); ++coarser_scale_id) {
-      auto& coarser_map = map(coarser_scale_id);
-      bool coarser_area_is_updated = false;
-      using GRRectangle = GridRasterizedRectangle;
-      auto cm_coords = GRRectangle{coarser_map, modified_space, false};
-      while (cm_coords.has_next()) {
-        auto coord = cm_coords.next();
-        auto &coarser_area = coarser_map[coord];
-        auto coarser_impact = estimate_spe_obstacle_impact(coarser_area);
-        // TODO: move "propagate max" to the strategy if required.
-        auto coarser_update_is_not_required =
-          !coarser_area.is_unknown() &&
-          less_or_equal(impact, coarser_impact);
-        if (coarser_update_is_not_required) { continue; }
-
-        coarser_map.reset(coord, modified_area);
-        coarser_area_is_updated = true;
-      }
+         coarser_scale_id < coarsest_scale_id(); ++coarser_scale_id) {
+      bool coarser_area_is_updated = update_coarser_map(
+        map(coarser_scale_id), modified_space, modified_area, impact);
       if (!coarser_area_is_updated) { break; }
     }
+    // NB: levels added by the update precede the coarsest one
+    //     and already know about the modified area
+    update_coarser_map(map(coarsest_scale_id()),
+                       modified_space, modified_area, impact);
+  }
+
+  void init_coarser_map(GridMap &coarser_map,
+                        const GridMap &finer_map) const override {
+    auto raw_crd = DiscretePoint2D{0, 0};
+    for (raw_crd.x = 0; raw_crd.x < finer_map.width(); ++raw_crd.x) {
+      for (raw_crd.y = 0; raw_crd.y < finer_map.height(); ++raw_crd.y) {
+        auto area_id = finer_map.internal2external(raw_crd);
+        const auto &area = finer_map[area_id];
+        if (area.is_unknown()) { continue; }
+        update_coarser_map(coarser_map, finer_map.world_cell_bounds(area_id),
+                           area, estimate_spe_obstacle_impact(area));
+      }
+    }
+  }
+
+  // returns whether the coarser map is modified
+  bool update_coarser_map(GridMap &coarser_map, const Rectangle &modified_space,
+                          const GridCell &modified_area, double impact) const {
+    bool coarser_area_is_updated = false;
+    using GRRectangle = GridRasterizedRectangle;
+    auto cm_coords = GRRectangle{coarser_map, modified_space, false};
+    while (cm_coords.has_next()) {
+      auto coord = cm_coords.next();
+      auto &coarser_area = coarser_map[coord];
+      auto coarser_impact = estimate_spe_obstacle_impact(coarser_area);
+      // TODO: move "propagate max" to the strategy if required.
+      auto coarser_update_is_not_required =
+        !coarser_area.is_unknown() &&
+        less_or_equal(impact, coarser_impact);
+      if (coarser_update_is_not_required) { continue; }
+
+      coarser_map.reset(coord, modified_area);
+      coarser_area_is_updated = true;
+    }
+    return coarser_area_is_updated;
   }
 
 private:
-- 
2.43.0


From 7a04b776339a4ffbb3878b21870c617be0095f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 19/47] fix: angle histogram aborts on points that are almost
 aligned with the axes

---
 src/core/features/angle_histogram.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/features/angle_histogram.h b/src/core/features/angle_histogram.h
index 51d2152..162d051 100644
--- a/src/core/features/angle_histogram.h
+++ b/src/core/features/angle_histogram.h
@@ -77,14 +77,15 @@ public:
     if (d_y == 0) { // TODO: math utils
       return 0; // 180 is equivalent to 0
     }
-    auto d_d = std::sqrt(d_x*d_x + d_y*d_y);
+    auto d_d = std::hypot(d_x, d_y);
     auto angle = std::acos(d_x / d_d);
 
     if (d_y < 0 && d_x != 0) { // TODO: math utils
       angle = M_PI - angle;
     }
 
-    return angle;
+    // NB: may be rounded to 180 if the direction is almost horizontal
+    return angle < M_PI ? angle : 0;
   }
 
 protected:
-- 
2.43.0


From 6308cfdd1700e78dc2633f9da2ff958d0e889d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 20/47] fix: a rectangle degenerated to a line is rasterized to
 its first cell only

---
 src/core/maps/grid_rasterization.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/maps/grid_rasterization.h b/src/core/maps/grid_rasterization.h
index e480d3c..8876b36 100644
--- a/src/core/maps/grid_rasterization.h
+++ b/src/core/maps/grid_rasterization.h
@@ -27,12 +27,15 @@ public:
                           const LightWeightRectangle &r,
                           bool include_border = true) {
     double offset = include_border ? 0 : 1e-9;
+    // NB: a line has no border to be excluded along its zero-length side
+    double h_offset = r.hside_len() == 0 ? 0 : offset,
+           v_offset = r.vside_len() == 0 ? 0 : offset;
     bool area_is_infin = r.area() == RegularSquaresGrid::Dbl_Inf,
-         area_is_empty = r.area() == 0;
+         area_is_empty = r.is_point();
     double scale = grid.scale();
     if (!area_is_empty && !area_is_infin) {
-      _lb = grid.world_to_cell(r.left() + offset, r.bot() + offset, scale);
-      _rt = grid.world_to_cell(r.right() - offset, r.top() - offset, scale);
+      _lb = grid.world_to_cell(r.left() + h_offset, r.bot() + v_offset, scale);
+      _rt = grid.world_to_cell(r.right() - h_offset, r.top() - v_offset, scale);
     } else if (area_is_empty) {
       // TODO: do not pass scale as an argument. This causes slight slow down.
       //       Find out the reason.
-- 
2.43.0


From 5e5c37d5969074ff86541087fcfeffdac62456d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 21/47] fix: viny weighting of a prerotated scan depends on the
 robot's heading

---
 .../weighted_mean_point_probability_spe.h          | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/weighted_mean_point_probability_spe.h b/src/core/scan_matchers/weighted_mean_point_probability_spe.h
index 5a44b9b..697eec9 100644
--- a/src/core/scan_matchers/weighted_mean_point_probability_spe.h
+++ b/src/core/scan_matchers/weighted_mean_point_probability_spe.h
@@ -46,8 +46,18 @@ private:
 
 class VinySlamSPW : public ScanPointWeighting {
 public:
+  void reset(const LaserScan2D &scan) override {
+    _weights.clear();
+    for (auto &sp : scan.points()) { _weights.push_back(weight(sp)); }
+  }
+
   double weight(const LaserScan2D::Points &pts, PointId id) const override {
-    const auto &sp = pts[id];
+    // NB: bearings of a prerotated scan aren't related to the robot's heading
+    return _weights.size() == pts.size() ? _weights[id] : weight(pts[id]);
+  }
+
+private:
+  double weight(const ScanPoint2D &sp) const {
     auto angle = sp.angle();
     auto weight = std::abs(std::sin(angle)) + std::abs(std::cos(angle));
     if (0.9 < std::abs(std::cos(angle))) {
@@ -57,6 +67,8 @@ public:
     }
     return weight * std::sqrt(sp.range());
   }
+private:
+  std::vector<double> _weights;
 };
 
 //============================================================================//
-- 
2.43.0


From c0573427a34ff23afa4f2c2c1d45a20088803f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 22/47] fix: multi-resolution matcher aborts on a scan without
 usable points

---
 src/core/scan_matchers/bf_multi_res_scan_matcher.h | 9 ++++++++-
 src/core/scan_matchers/m3rsm_engine.h              | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/bf_multi_res_scan_matcher.h b/src/core/scan_matchers/bf_multi_res_scan_matcher.h
index 0e8ae4c..f31d3ae 100644
--- a/src/core/scan_matchers/bf_multi_res_scan_matcher.h
+++ b/src/core/scan_matchers/bf_multi_res_scan_matcher.h
@@ -43,7 +43,14 @@ public:
                                       raw_scan.scan, rescalable_map, true);
     while (1) {
       auto best_match = _engine.next_best_match(_transl_step);
-      assert(best_match.is_valid());
+      if (!best_match.is_valid()) { // the scan doesn't hit the map
+        result_pose_delta = {0, 0, 0};
+        auto prob = ScanProbabilityEstimator::unknown_probability();
+        do_for_each_observer([&raw_scan, &result_pose_delta, prob](ObsPtr obs) {
+          obs->on_matching_end(result_pose_delta, raw_scan.scan, prob);
+        });
+        return prob;
+      }
       if (best_match.is_finest()) {
         result_pose_delta = {best_match.translation_drift.center(),
                              best_match.rotation};
diff --git a/src/core/scan_matchers/m3rsm_engine.h b/src/core/scan_matchers/m3rsm_engine.h
index d945253..8f210d5 100644
--- a/src/core/scan_matchers/m3rsm_engine.h
+++ b/src/core/scan_matchers/m3rsm_engine.h
@@ -304,6 +304,7 @@ public:
 
   void add_match(Match&& match) {
     double match_prob = match.prob_upper_bound;
+    if (!match.is_valid()) { return; }
     if (match_prob < _best_finest_probability) { return; }
 
     if (match.is_finest()) {
-- 
2.43.0


From 28b61116fda54d4a2c444511e2a906e70b90f812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 23/47] fix: an analysed area that leaves a fixed-size map is
 read out of its bounds

---
 .../scan_matchers/occupancy_observation_probability.h    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/scan_matchers/occupancy_observation_probability.h b/src/core/scan_matchers/occupancy_observation_probability.h
index 423ed0b..6e14c66 100644
--- a/src/core/scan_matchers/occupancy_observation_probability.h
+++ b/src/core/scan_matchers/occupancy_observation_probability.h
@@ -40,7 +40,9 @@ public:
     auto area_ids = GridRasterizedRectangle{map, area};
 
     while (area_ids.has_next()) {
-      double impact = observation_impact(map[area_ids.next()], aoo);
+      auto area_id = area_ids.next();
+      if (!map.has_cell(area_id)) { continue; }
+      double impact = observation_impact(map[area_id], aoo);
       assert(is_probality_bounded(impact));
       max_probability = std::max(impact, max_probability);
     }
@@ -63,7 +65,9 @@ public:
 
     auto area_ids = GridRasterizedRectangle{map, area};
     while (area_ids.has_next()) {
-      double impact = observation_impact(map[area_ids.next()], aoo);
+      auto area_id = area_ids.next();
+      if (!map.has_cell(area_id)) { continue; }
+      double impact = observation_impact(map[area_id], aoo);
       assert(is_probality_bounded(impact));
       tot_probability += impact;
       area_nm += 1;
@@ -88,6 +92,7 @@ public:
     auto area_ids = GridRasterizedRectangle{map, area};
     while (area_ids.has_next()) {
       auto area_id = area_ids.next();
+      if (!map.has_cell(area_id)) { continue; }
       double impact = observation_impact(map[area_id], aoo);
       assert(is_probality_bounded(impact));
       auto weight = area.overlap(map.world_cell_bounds(area_id));
-- 
2.43.0


From d861ee6372fdb604ef223ce2accc50e9424717c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 24/47] fix: multi-resolution matcher aborts when a finer bound
 exceeds the coarse one

---
 src/core/scan_matchers/m3rsm_engine.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/scan_matchers/m3rsm_engine.h b/src/core/scan_matchers/m3rsm_engine.h
index 8f210d5..d689a9d 100644
--- a/src/core/scan_matchers/m3rsm_engine.h
+++ b/src/core/scan_matchers/m3rsm_engine.h
@@ -375,9 +375,9 @@ private:
     // update matches with finer ones
     for (auto& finer_drift : finer_drifts) {
       auto finer_match = Match{finer_drift, coarse_match};
-      assert(less_or_equal(finer_match.prob_upper_bound,
-                           coarse_match.prob_upper_bound, 1e-5) &&
-             "BUG: Bounding assumption is violated");
+      // NB: the finer bound may exceed the coarse one if the finer drift touches
+      //     unknown areas (they are not bounded), its border is rounded
+      //     to another area or the OOPE isn't a maximum
       add_match(std::move(finer_match));
     }
   }
-- 
2.43.0


From 6562e2910a861841f31e00fbe64dc42c83547a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 25/47] fix: normalization turns weights of an all-zero
 population into NaN

---
 src/core/particle_filter.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/particle_filter.h b/src/core/particle_filter.h
index e85c73a..4c217f4 100644
--- a/src/core/particle_filter.h
+++ b/src/core/particle_filter.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_PARTICLE_FILTER_H_INCLUDED
 #define SLAM_CTOR_PARTICLE_FILTER_H_INCLUDED
 
+#include <cmath>
 #include <memory>
 #include <vector>
 #include <random>
@@ -108,6 +109,11 @@ public: // methods
   void normalize_weights() {
     double total_weight = 0;
     for (auto &p : _particles) { total_weight += p->weight(); }
+    if (!(0 < total_weight) || !std::isfinite(total_weight)) {
+      // the weights tell nothing about the particles (e.g. all of them are 0)
+      for (auto &p : _particles) { p->set_weight(1.0 / _particles.size()); }
+      return;
+    }
     for (auto &p : _particles) { p->set_weight(p->weight() / total_weight); }
   }
 
-- 
2.43.0


From 8e8ca22af4feec1a1c5b1896012ff835be3c0c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 26/47] fix: gmapping particles lose their weight on the first
 and on unusable scans

---
 src/slams/gmapping/gmapping_world.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index 89080f3..f2cbcc2 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -89,6 +89,13 @@ public:
                                                     map(), pose_delta);
     LaserScanGridWorld::update_robot_pose(pose_delta);
 
+    // NB: there is nothing to match the first scan with, and a scan without
+    //     usable points tells nothing about the pose
+    if (!_scan_is_first &&
+        !ScanProbabilityEstimator::is_prob_unknown(scan_prob)) {
+      Particle::set_weight(scan_prob * Particle::weight());
+    }
+
     // TODO: scan_prob threshold to params
     if (0.0 < scan_prob || _scan_is_first) {
       // map update accordig to original gmapping code (ref?)
@@ -96,7 +103,6 @@ public:
       _scan_is_first = false;
     }
 
-    Particle::set_weight(scan_prob * Particle::weight());
     reset_scan_matching_delta();
   }
 
-- 
2.43.0


From 607ccbb12c061b90253573848276ba9b116fc9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 27/47] fix: all gmapping particles update the same map

---
 src/slams/gmapping/gmapping_world.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index f2cbcc2..14cf208 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -51,6 +51,7 @@ public:
     , _rnd_engine(std::random_device{}())
     , _pose_guess_rv{gparams.pose_guess_rv}
     , _next_sm_delta_rv{gparams.next_sm_delta_rv} {
+    detach_map();
     reset_scan_matching_delta();
   }
 
@@ -115,10 +116,18 @@ public:
       GRV1D{0, 0}, GRV1D{0, 0}, GRV1D{0, 0}};
   }
   bool is_master() { return _is_master; }
-  void sample() override { _is_master = false; }
+  void sample() override {
+    _is_master = false;
+    detach_map();
+  }
 
 private:
 
+  // each particle builds its own map (tiles are shared until an update)
+  void detach_map() {
+    _map = std::make_shared<MapType>(static_cast<const MapType&>(*_map));
+  }
+
   void reset_scan_matching_delta() {
     _delta_since_last_sm.reset();
     _next_sm_delta = _next_sm_delta_rv.sample(_rnd_engine);
-- 
2.43.0


From 2023dd6a10182da0858de96dcab4828ec6761d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 28/47] fix: copies of a gmapping particle repeat its noise

---
 src/slams/gmapping/gmapping_world.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index 14cf208..fd10aa1 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -49,6 +49,7 @@ public:
     : SingleStateHypothesisLaserScanGridWorld{shw_params}
     , _raw_odom_pose{0, 0, 0}
     , _rnd_engine(std::random_device{}())
+    , _gparams{gparams}
     , _pose_guess_rv{gparams.pose_guess_rv}
     , _next_sm_delta_rv{gparams.next_sm_delta_rv} {
     detach_map();
@@ -119,6 +120,10 @@ public:
   void sample() override {
     _is_master = false;
     detach_map();
+    // NB: a copy of a particle (or of a master) explores on its own
+    _rnd_engine.seed(std::random_device{}());
+    _pose_guess_rv = _gparams.pose_guess_rv;
+    _next_sm_delta_rv = _gparams.next_sm_delta_rv;
   }
 
 private:
@@ -138,6 +143,7 @@ private:
   bool _is_master = false;
   bool _scan_is_first = true;
   RandomEngine _rnd_engine;
+  GMappingParams _gparams;
   RobotPoseDeltaRV<RandomEngine> _pose_guess_rv, _next_sm_delta_rv;
   RobotPoseDelta _delta_since_last_sm, _next_sm_delta;
 };
-- 
2.43.0


From 3dd925e3733f15f5ac78fad36b19ae9c11ff3333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 29/47] fix: a property can't override a value set by an
 included or earlier file

---
 src/utils/properties_providers.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/properties_providers.h b/src/utils/properties_providers.h
index 7ff7ac7..bea346f 100644
--- a/src/utils/properties_providers.h
+++ b/src/utils/properties_providers.h
@@ -70,7 +70,9 @@ public:
   }
 
   MapPropertiesProvider &operator+=(const MapPropertiesProvider &that) {
-    _props.insert(that._props.begin(), that._props.end());
+    for (const auto &entry : that._props) {
+      _props[entry.first] = entry.second;
+    }
     return *this;
   }
 
@@ -160,7 +162,7 @@ private:
 
           auto included_path = fname_dir + std::string{std::next(buf.begin()),
                                                        std::prev(buf.end())};
-          append_file_content(included_path);
+          props += parse_file(included_path);
         } else {
           std::cout << "[Warn][FilePropertiesProvider] Line: " << line
                     << ". Include error: last char is not '>'" << std::endl;
-- 
2.43.0


From 9d54392f08711cc83b41a3d7aee02df447107749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 30/47] fix: gmapping ignores the configured window size

---
 src/slams/gmapping/init_gmapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slams/gmapping/init_gmapping.h b/src/slams/gmapping/init_gmapping.h
index 7b17882..718114a 100644
--- a/src/slams/gmapping/init_gmapping.h
+++ b/src/slams/gmapping/init_gmapping.h
@@ -39,7 +39,7 @@ auto init_gmapping_prob_estimator(const PropertiesProvider &props) {
 
   using CustomOOPE = GmappingOccupancyObservationPE;
   auto fullness_th = props.get_dbl(OOPE_Pfx + "custom/fullness_threshold", 0.1);
-  auto window_size = props.get_uint(OOPE_Pfx + "cutrom/window_size", 1);
+  auto window_size = props.get_uint(OOPE_Pfx + "custom/window_size", 1);
   auto oope = std::make_shared<CustomOOPE>(fullness_th, window_size);
   return init_spe(props, oope);
 }
-- 
2.43.0


From bbbc5af7dc3944969b7a88f4ff431ab1f9503d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 31/47] fix: configured map width and height are mixed up

---
 src/utils/init_occupancy_mapping.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/init_occupancy_mapping.h b/src/utils/init_occupancy_mapping.h
index 2a8b1a8..59e412c 100644
--- a/src/utils/init_occupancy_mapping.h
+++ b/src/utils/init_occupancy_mapping.h
@@ -31,8 +31,8 @@ auto init_pose_quality_estimators(const PropertiesProvider &props) {
 
 auto init_grid_map_params(const PropertiesProvider &props) {
   static const std::string Map_NS = "slam/map/";
-  auto w = props.get_dbl(Map_NS + "height_in_meters", 10);
-  auto h = props.get_dbl(Map_NS + "width_in_meters", 10);
+  auto w = props.get_dbl(Map_NS + "width_in_meters", 10);
+  auto h = props.get_dbl(Map_NS + "height_in_meters", 10);
   auto scale = props.get_dbl(Map_NS + "meters_per_cell", 0.1);
   return GridMapParams{static_cast<int>(std::ceil(w / scale)),
                        static_cast<int>(std::ceil(h / scale)),
-- 
2.43.0


From 49a32637c21a00f61b0717484c176b1bfffc5264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 32/47] fix: configured observation quality estimator type is
 never read

---
 src/utils/init_occupancy_mapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/init_occupancy_mapping.h b/src/utils/init_occupancy_mapping.h
index 59e412c..976c068 100644
--- a/src/utils/init_occupancy_mapping.h
+++ b/src/utils/init_occupancy_mapping.h
@@ -65,7 +65,7 @@ std::shared_ptr<ObservationMappingQualityEstimator> init_omqe(
     const PropertiesProvider &props) {
 
   static const auto MAPPING_NS = std::string{"slam/mapping/"};
-  static const auto OMQE_NS = MAPPING_NS + "observation_quality_estimator/type";
+  static const auto OMQE_NS = MAPPING_NS + "observation_quality_estimator/";
   // TODO: replace with <undefined> after config refactoring
   auto type = props.get_str(OMQE_NS + "type", "idle");
   std::cout << "Used OMQE: " << type << std::endl;
-- 
2.43.0


From b2064020644f4d0f64e193f42676d85be58b464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 33/47] fix: shipped multi-resolution matcher limits are never
 read

---
 config/common/bf_m3rsm.properties | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/config/common/bf_m3rsm.properties b/config/common/bf_m3rsm.properties
index 264a906..117c208 100644
--- a/config/common/bf_m3rsm.properties
+++ b/config/common/bf_m3rsm.properties
@@ -6,6 +6,6 @@ slam/scmtch/oope/type=max
 slam/scmtch/BF_M3RSM/accuracy/rotation=0.0017
 slam/scmtch/BF_M3RSM/accuracy/translation=0.05
 # 5 degrees
-slam/scmtch/BF_M3RSM/limit/rotation=0.087
-slam/scmtch/BF_M3RSM/limit/x_translation=1
-slam/scmtch/BF_M3RSM/limit/y_translation=1
\ No newline at end of file
+slam/scmtch/BF_M3RSM/limits/rotation=0.087
+slam/scmtch/BF_M3RSM/limits/x_translation=1
+slam/scmtch/BF_M3RSM/limits/y_translation=1
\ No newline at end of file
-- 
2.43.0


From 3b90a57ef69a1520d7715964602b89c56b24ee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 34/47] fix: shipped gmapping and experimental viny
 configurations are refused

---
 config/slams/gmapping_base.properties          | 7 +++++++
 config/slams/viny_slam_experimental.properties | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/config/slams/gmapping_base.properties b/config/slams/gmapping_base.properties
index 6ebb80e..80806c6 100644
--- a/config/slams/gmapping_base.properties
+++ b/config/slams/gmapping_base.properties
@@ -13,3 +13,10 @@ slam/particles/sm_delta_lim/xy/min=0.6
 slam/particles/sm_delta_lim/xy/max=0.8
 slam/particles/sm_delta_lim/theta/min=0.3
 slam/particles/sm_delta_lim/theta/max=0.4
+
+# +--------------+
+# | Localization |
+# +--------------+
+
+slam/scmtch/spe/type=wmpp
+slam/scmtch/spe/wmpp/weighting/type=even
diff --git a/config/slams/viny_slam_experimental.properties b/config/slams/viny_slam_experimental.properties
index a8ed7a7..88bcab3 100644
--- a/config/slams/viny_slam_experimental.properties
+++ b/config/slams/viny_slam_experimental.properties
@@ -12,6 +12,8 @@ slam/occupancy_estimator/base_occupied/qual=0.04
 slam/occupancy_estimator/base_empty/prob=0.01
 slam/occupancy_estimator/base_empty/qual=0.003
 
+slam/mapping/grid/area/type=tbm_consistent
+
 # == Occupancy Map setup
 
 slam/mapping/grid/type=unbounded_plain
-- 
2.43.0


From 28a26b30e0e01641dc46bb705fdd37d991c46ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:57 +0000
Subject: [PATCH 35/47] fix: cached trigonometry misses the last bearing of its
 sector

---
 src/core/trigonometry_utils.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/trigonometry_utils.h b/src/core/trigonometry_utils.h
index 7ef06fc..5f037bb 100644
--- a/src/core/trigonometry_utils.h
+++ b/src/core/trigonometry_utils.h
@@ -68,10 +68,12 @@ public:
     _angle_max = a_max;
     _angle_delta = a_inc;
 
-    int angles_nm = (_angle_max - _angle_min) / _angle_delta + 1;
+    // NB: the last angle belongs to the sector
+    int angles_nm = std::round((_angle_max - _angle_min) / _angle_delta) + 1;
     _sin.reserve(angles_nm);
     _cos.reserve(angles_nm);
-    for(double angle = _angle_min; angle < _angle_max; angle += _angle_delta) {
+    double angle = _angle_min;
+    for (int angle_i = 0; angle_i < angles_nm; ++angle_i, angle += _angle_delta) {
       _sin.push_back(std::sin(angle));
       _cos.push_back(std::cos(angle));
     }
-- 
2.43.0


From c6e5710f7815972725ef092d64343962897509ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 36/47] fix: reading a truncated scan adds garbage points

---
 src/core/states/sensor_data.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/states/sensor_data.h b/src/core/states/sensor_data.h
index c35c101..1163212 100644
--- a/src/core/states/sensor_data.h
+++ b/src/core/states/sensor_data.h
@@ -192,8 +192,11 @@ std::istream& operator>>(std::istream &ism, LaserScan2D &scan) {
   scan.points().clear();
   for (sp_nm_t sp_i = 0; sp_i < sp_nm; sp_i++) {
     double range = 0, angle = 0;
-    bool is_occupied;
+    bool is_occupied = false;
     ism >> range >> angle >> is_occupied;
+    if (!ism) { // truncated or malformed
+      break;
+    }
     scan.points().push_back(ScanPoint2D::make_polar(range, angle, is_occupied));
   }
 
-- 
2.43.0


From 388df9e4db08449ae24d109a84be5fb9b2136d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:57 +0000
Subject: [PATCH 37/47] fix: beam through a cell's vertex may miss it because
 of rounding

---
 src/core/geometry_primitives.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/core/geometry_primitives.h b/src/core/geometry_primitives.h
index e670320..31c5e19 100644
--- a/src/core/geometry_primitives.h
+++ b/src/core/geometry_primitives.h
@@ -132,6 +132,13 @@ public:
     assert(false && "BUG: Unable to intersect non-axes-aligned segment");
   }
 
+  bool passes_through(const Point2D &p) const {
+    auto cross = delta.x * (p.y - beg.y) - delta.y * (p.x - beg.x);
+    auto scale = std::max(1.0, std::max(std::abs(beg.x), std::abs(beg.y)));
+    return std::abs(cross) <
+           1e-12 * scale * (std::abs(delta.x) + std::abs(delta.y));
+  }
+
 private:
   void intersect_horiz_segm(double st_x, double end_x, double y,
                             Intersection::Location loc,
@@ -349,6 +356,16 @@ public: // methods
     }
     auto new_last = std::unique(intersections.begin(), intersections.end());
     intersections.erase(new_last, intersections.end());
+
+    // a vertex may be missed by both its edges (fp rounding errors)
+    for (auto &c : corners()) {
+      if (1 < intersections.size()) { break; }
+      auto is_known = !intersections.empty() && intersections.front() == c;
+      if (is_known || !ray.passes_through(c)) { continue; }
+      intersections.emplace_back(c.y == top() ? Intersection::Location::Top :
+                                                Intersection::Location::Bot,
+                                 c.x, c.y);
+    }
     assert(intersections.size() < 3);
     return intersections;
   }
-- 
2.43.0


From 69f573842ef865f76ef54c54302e2f18e65afa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:39 +0000
Subject: [PATCH 38/47] fix: invalid (NaN) range readings become obstacles at
 no distance

---
 src/ros/laser_scan_observer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ros/laser_scan_observer.h b/src/ros/laser_scan_observer.h
index 08c4742..5cdfb68 100644
--- a/src/ros/laser_scan_observer.h
+++ b/src/ros/laser_scan_observer.h
@@ -6,6 +6,7 @@
 #include <sensor_msgs/LaserScan.h>
 #include <boost/shared_ptr.hpp>
 #include <cassert>
+#include <cmath>
 #include <iostream>
 
 #include "../core/states/state_data.h"
@@ -51,7 +52,7 @@ public: //methods
       sp_angle += msg->angle_increment;
 
       // filter points by range/angle
-      if (sp_range < msg->range_min) {
+      if (sp_range < msg->range_min || std::isnan(sp_range)) {
         continue;
       } else if (msg->range_max <= sp_range) {
         sp_is_occupied = false;
-- 
2.43.0


From e237766e64c9863b6130479d40bc55131dc50746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:40 +0000
Subject: [PATCH 39/47] fix: scans at the end of a bag are lost if earlier ones
 are dropped

---
 src/ros/bag_topic_with_transform.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ros/bag_topic_with_transform.h b/src/ros/bag_topic_with_transform.h
index c723612..b3c335d 100644
--- a/src/ros/bag_topic_with_transform.h
+++ b/src/ros/bag_topic_with_transform.h
@@ -106,7 +106,8 @@ private:
       std::cout << "[WARN][BagTopic] ";
       if (reason.find("past") != std::string::npos) {
          _msg_cache.pop();
-         std::cout << "Scan dropped. ";
+         std::cout << "Scan dropped. " << reason << std::endl;
+         return has_synced_msg();
       }
       std::cout << reason << std::endl;;
       return false;
-- 
2.43.0


From 68666a4ea3e765d3af73fe76b0c0f45d568de86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:40 +0000
Subject: [PATCH 40/47] fix: a scan preceding the first transforms of a bag
 terminates the run

---
 src/ros/bag_topic_with_transform.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ros/bag_topic_with_transform.h b/src/ros/bag_topic_with_transform.h
index b3c335d..c0e6634 100644
--- a/src/ros/bag_topic_with_transform.h
+++ b/src/ros/bag_topic_with_transform.h
@@ -96,6 +96,11 @@ private:
     tf::StampedTransform transform;
     try {
       _tf_cache.lookupTransform(_target_frame, frame_id, time, transform);
+    } catch (const tf::LookupException &) {
+      // frames are not known yet, wait for tf transforms
+      return false;
+    } catch (const tf::ConnectivityException &) {
+      return false;
     } catch (const tf::ExtrapolationException &e) {
       auto reason = std::string{e.what()};
       if (reason.find("extrapolation into the future") != std::string::npos) {
-- 
2.43.0


From e5853c2e7ed58f5942e4a4a7381cb7d82b962386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:30 +0000
Subject: [PATCH 41/47] fix: dumped timestamps lose leading zeros of
 nanoseconds

---
 src/ros/robot_pose_observers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ros/robot_pose_observers.h b/src/ros/robot_pose_observers.h
index cac6124..3306f44 100644
--- a/src/ros/robot_pose_observers.h
+++ b/src/ros/robot_pose_observers.h
@@ -2,6 +2,7 @@
 #define SLAM_CTOR_ROS_ROBOT_POSE_OBSERVERS_H
 
 #include <fstream>
+#include <iomanip>
 #include <ros/ros.h>
 #include <tf/transform_broadcaster.h>
 
@@ -75,7 +76,7 @@ public:
 
   void log_robot_pose(const ros::Time &time,  const RobotPose &pose) {
     auto q = tf::createQuaternionFromRPY(0, 0, pose.theta);
-    _fstream << time.sec << '.' << time.nsec
+    _fstream << time.sec << '.' << std::setw(9) << std::setfill('0') << time.nsec
              << ' ' << pose.x << ' ' << pose.y << ' ' << '0'
              << ' ' << q.x() << ' ' << q.y() << ' ' << q.z() << ' ' << q.w()
              << '\n';
-- 
2.43.0


From ce77df5953aa59affe34a29d807d381b7d55f22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:30 +0000
Subject: [PATCH 42/47] fix: destruction of an asynchronous correction
 publisher terminates the process

---
 src/ros/pose_correction_tf_publisher.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ros/pose_correction_tf_publisher.h b/src/ros/pose_correction_tf_publisher.h
index 799bda5..f6457b3 100644
--- a/src/ros/pose_correction_tf_publisher.h
+++ b/src/ros/pose_correction_tf_publisher.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_CORE_POSE_CORRECTION_TF_PUBLISHER_H
 #define SLAM_CTOR_CORE_POSE_CORRECTION_TF_PUBLISHER_H
 
+#include <atomic>
 #include <thread>
 #include <mutex>
 #include <utility>
@@ -28,6 +29,13 @@ public: //methods
     _transform_publisher = std::move(std::thread{loop_f, this});
   }
 
+  ~PoseCorrectionTfPublisher() {
+    _is_stopped = true;
+    if (_transform_publisher.joinable()) {
+      _transform_publisher.join();
+    }
+  }
+
   virtual void handle_transformed_msg(
     const boost::shared_ptr<ObservationType>,
     const tf::StampedTransform& t) override {
@@ -51,7 +59,7 @@ private: //methods
 
   void publishing_loop() {
     ros::Rate rate(1.0 / 0.05);
-    while (ros::ok()) {
+    while (ros::ok() && !_is_stopped) {
       publish_map_to_odom();
       rate.sleep();
     }
@@ -70,6 +78,7 @@ private: // fields
   tf::Transform _last_odom2base;
   tf::Transform _map2odom;
   std::mutex _map2odom_mutex;
+  std::atomic<bool> _is_stopped{false};
   std::thread _transform_publisher;
 };
 
-- 
2.43.0


From ce2a23495fd889782efae8669be4333b5b909bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 43/47] fix: a scan adder built without an observation quality
 estimator crashes on the first scan

---
 src/core/maps/grid_map_scan_adders.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/maps/grid_map_scan_adders.h b/src/core/maps/grid_map_scan_adders.h
index ce6ae6d..1e43ce6 100644
--- a/src/core/maps/grid_map_scan_adders.h
+++ b/src/core/maps/grid_map_scan_adders.h
@@ -115,6 +115,7 @@ private:
   public:
     WallDistanceBlurringScanAdderBuilder()
       : _blur_distance{0}
+      , _observation_quality_estimator{std::make_shared<IdleOMQE>()}
       , _max_usable_range{std::numeric_limits<double>::infinity()} {}
 
     auto build() const {
-- 
2.43.0


From c6fe933a2f1325a158f1dbd3b60d1d2fe34c8a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 44/47] fix: sm_runner filters a scan twice, so most of its
 points are skipped

---
 src/utils/sm_runner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/sm_runner.cpp b/src/utils/sm_runner.cpp
index 7f68dd6..10f4a3c 100644
--- a/src/utils/sm_runner.cpp
+++ b/src/utils/sm_runner.cpp
@@ -79,10 +79,10 @@ int main(int argc, char **argv) {
 
   // 2)
   auto sm = init_scan_matcher(props);
-  auto scan = sm->filter_scan(raw_scan, pose, *map);
   auto pose_delta = RobotPoseDelta{0, 0, 0};
 
-  auto tr_scan = TransformedLaserScan{{}, scan, 1 /* qualtiy */};
+  // NB: the scan is filtered by the scan matcher
+  auto tr_scan = TransformedLaserScan{{}, raw_scan, 1 /* qualtiy */};
   auto pose_prob = sm->process_scan(tr_scan, pose, *map, pose_delta);
 
   std::cout << "Pose delta: " << pose_delta
-- 
2.43.0


From c3d9fda5fa89a9700e0fdc424ad92fae81a280f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 45/47] fix: sm_runner accepts malformed poses and scans and
 aborts on malformed maps

---
 src/utils/sm_runner.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/utils/sm_runner.cpp b/src/utils/sm_runner.cpp
index 10f4a3c..7608195 100644
--- a/src/utils/sm_runner.cpp
+++ b/src/utils/sm_runner.cpp
@@ -2,6 +2,7 @@
 #include <fstream>
 #include <string>
 #include <cstdlib>
+#include <exception>
 #include <algorithm>
 #include <iterator>
 
@@ -28,6 +29,10 @@ decltype(auto) setup_pose2D(const std::string &fname) {
   }
   double x = 0, y = 0, theta = 0;
   pose_fstrm >> x >> y >> theta;
+  if (!pose_fstrm) {
+    std::cout << "Malformed pose in " << fname << std::endl;
+    std::exit(-1);
+  }
   auto pose = RobotPose{x, y, theta};
   pose_fstrm.close();
   return pose;
@@ -45,7 +50,13 @@ decltype(auto) setup_map(const PropertiesProvider &props,
   auto buf = std::vector<char>{};
   std::copy(std::istreambuf_iterator<char>(map_fstrm),
             std::istreambuf_iterator<char>(), std::back_inserter(buf));
-  map->load_state(buf);
+  try {
+    map->load_state(buf);
+  } catch (const std::exception &e) {
+    std::cout << "Malformed map in " << map_fname << ": " << e.what()
+              << std::endl;
+    std::exit(-1);
+  }
   return map;
 }
 
@@ -57,6 +68,10 @@ decltype(auto) setup_laser_scan2D(const std::string &fname) {
   }
   auto scan = LaserScan2D{};
   scan_fstrm >> scan;
+  if (!scan_fstrm) {
+    std::cout << "Malformed scan in " << fname << std::endl;
+    std::exit(-1);
+  }
   scan_fstrm.close();
   return scan;
 }
-- 
2.43.0


From 96a2656c78bcd9986b39f0d6402016275224fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:25 +0000
Subject: [PATCH 46/47] fix: validation of a bounded multi-resolution map reads
 cells outside of the map

---
 src/core/scan_matchers/m3rsm_engine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/m3rsm_engine.h b/src/core/scan_matchers/m3rsm_engine.h
index d689a9d..a1d1ba4 100644
--- a/src/core/scan_matchers/m3rsm_engine.h
+++ b/src/core/scan_matchers/m3rsm_engine.h
@@ -72,7 +72,7 @@ protected:
                                  const Rectangle &area) const {
     double max = std::numeric_limits<double>::lowest();
     for (auto &a_id : GridRasterizedRectangle{map, area, false}.to_vector()) {
-      if (map[a_id].is_unknown()) { continue; }
+      if (!map.has_cell(a_id) || map[a_id].is_unknown()) { continue; }
       max = std::max(estimate_spe_obstacle_impact(map[a_id]), max);
     }
 
-- 
2.43.0


From 49f442bc1525061b790cc9a715063c115b7e811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:49 +0000
Subject: [PATCH 47/47] fix: a multi-resolution map accepts data truncated at a
 level's end and is read out of bounds afterwards

---
 src/core/maps/rescalable_caching_grid_map.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/maps/rescalable_caching_grid_map.h b/src/core/maps/rescalable_caching_grid_map.h
index cfba224..f864650 100644
--- a/src/core/maps/rescalable_caching_grid_map.h
+++ b/src/core/maps/rescalable_caching_grid_map.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_CORE_RESCALABLE_CACHING_GRID_MAP_H
 #define SLAM_CTOR_CORE_RESCALABLE_CACHING_GRID_MAP_H
 
+#include <cmath>
 #include <memory>
 #include <cassert>
 #include <limits>
@@ -127,7 +128,7 @@ public:
 
   void load_state(const std::vector<char>& data) override {
     auto map_d = Deserializer{data};
-    _map_cache->clear();
+    auto map_cache = std::make_shared<MapCache>();
     while (map_d.pos() != data.size()) {
       decltype(data.size()) chunk_size;
       map_d >> chunk_size;
@@ -141,11 +142,13 @@ public:
 
       BackGridMap curr_map{cell_prototype(), {0, 0, 0}};
       curr_map.load_state(map_chunk);
-      _map_cache->push_back(std::make_unique<BackGridMap>(std::move(curr_map)));
+      map_cache->push_back(std::make_unique<BackGridMap>(std::move(curr_map)));
     }
-    if (_map_cache->empty()) {
-      throw std::out_of_range{"Unable to load map: no data"};
+    // NB: the coarsest map always ends the data
+    if (map_cache->empty() || !std::isinf(map_cache->back()->scale())) {
+      throw std::out_of_range{"Unable to load map: unexpected end of data"};
     }
+    _map_cache = map_cache;
     ensure_map_cache_is_continuous();
     set_scale_id(finest_scale_id());
   }
-- 
2.43.0

