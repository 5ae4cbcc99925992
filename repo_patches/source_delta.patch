From cb2346ad87070eac4cb6cd85e4ead52ef31462de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 01/24] fix: sub_data keeps the totals only for the whole line,
 not for the line without its last point

---
 .../geometry/rich_type/rich_line_data.hpp        | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index 5ece7a1..db49f1f 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -476,10 +476,10 @@ namespace map_matching_2::geometry {
                 return rich_line_data{};
             }
             return rich_line_data{
-                    (from == 0 and to + 1 == _lengths.size()) ? _length : not_initialized<length_type>,
-                    (from == 0 and to + 1 == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _directions : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
+                    (from == 0 and to == _lengths.size()) ? _length : not_initialized<length_type>,
+                    (from == 0 and to == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _directions : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
                     (not _lengths.empty() and from <= to and from < _lengths.size() and to <= _lengths.size())
                     ? length_container_type{_lengths.cbegin() + from, _lengths.cbegin() + to}
                     : length_container_type{},
@@ -498,10 +498,10 @@ namespace map_matching_2::geometry {
                 return rich_line_data{allocator};
             }
             return rich_line_data{
-                    (from == 0 and to + 1 == _lengths.size()) ? _length : not_initialized<length_type>,
-                    (from == 0 and to + 1 == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _directions : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
+                    (from == 0 and to == _lengths.size()) ? _length : not_initialized<length_type>,
+                    (from == 0 and to == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _directions : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
                     (not _lengths.empty() and from <= to and from < _lengths.size() and to <= _lengths.size())
                     ? length_container_type{_lengths.cbegin() + from, _lengths.cbegin() + to, allocator}
                     : length_container_type{allocator},
-- 
2.43.0


From cd45b9bebbd75eb5fde636b0f3902f56638bf639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 02/24] fix: lazy direction accessors do not throw for
 positions in range

---
 src/library/include/geometry/rich_type/rich_line_data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index db49f1f..c8e065e 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -437,6 +437,7 @@ namespace map_matching_2::geometry {
             if (pos + 1 < _azimuths.size()) {
                 _initialize_azimuth(rich_line, pos);
                 _initialize_azimuth(rich_line, pos + 1);
+                return;
             }
 
             throw std::out_of_range(std::format(
-- 
2.43.0


From b2d8034110aea3fecc13f0e9469ad16c616c5e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 03/24] fix: erasing the last point of a rich line refreshes
 its azimuth

---
 src/library/include/geometry/rich_type/eager_rich_line.hpp | 2 +-
 src/library/include/geometry/rich_type/lazy_rich_line.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/rich_type/eager_rich_line.hpp b/src/library/include/geometry/rich_type/eager_rich_line.hpp
index 96f2bf4..9799b8b 100644
--- a/src/library/include/geometry/rich_type/eager_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_rich_line.hpp
@@ -316,7 +316,7 @@ namespace map_matching_2::geometry {
             rich_line_base_type::erase(index);
             rich_line_data_base_type::_erase_and_replace(*this, index);
             if (rebuild) {
-                bool azimuth = index == 0 or index + 1 == this->size();
+                bool azimuth = index == 0 or index == this->size();
                 rich_line_data_base_type::_rebuild(*this, true, azimuth, true);
             }
         }
diff --git a/src/library/include/geometry/rich_type/lazy_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
index b60a459..b67ef70 100644
--- a/src/library/include/geometry/rich_type/lazy_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
@@ -306,7 +306,7 @@ namespace map_matching_2::geometry {
             rich_line_base_type::erase(index);
             rich_line_data_base_type::_erase_and_replace(*this, index);
             if (invalidate) {
-                bool azimuth = index == 0 or index + 1 == this->size();
+                bool azimuth = index == 0 or index == this->size();
                 rich_line_data_base_type::_invalidate(true, azimuth, true, false, false);
             }
         }
-- 
2.43.0


From cf787211f076e9414cab5f02e5313490d61c28e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 04/24] fix: assigning another kind of rich line replaces the
 cached attributes

---
 src/library/include/geometry/rich_type/eager_rich_line.hpp | 7 +++----
 src/library/include/geometry/rich_type/lazy_rich_line.hpp  | 1 +
 src/library/include/geometry/rich_type/rich_line_data.hpp  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/library/include/geometry/rich_type/eager_rich_line.hpp b/src/library/include/geometry/rich_type/eager_rich_line.hpp
index 9799b8b..5b94da6 100644
--- a/src/library/include/geometry/rich_type/eager_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_rich_line.hpp
@@ -193,6 +193,7 @@ namespace map_matching_2::geometry {
             template<typename> typename AllocatorT>
         eager_rich_line &operator=(const rich_line<point_type, ContainerT, AllocatorT> &other) {
             rich_line_base_type::line().assign(std::cbegin(other.line()), std::cend(other.line()));
+            rich_line_data_base_type::_invalidate();
             rich_line_data_base_type::_compute(*this);
             return *this;
         }
@@ -204,10 +205,8 @@ namespace map_matching_2::geometry {
             rich_line_data_base_type::_azimuth = other.azimuth();
             rich_line_data_base_type::_directions = other.directions();
             rich_line_data_base_type::_absolute_directions = other.absolute_directions();
-            std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()),
-                    std::back_inserter(rich_line_data_base_type::_lengths));
-            std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()),
-                    std::back_inserter(rich_line_data_base_type::_azimuths));
+            rich_line_data_base_type::_lengths.assign(std::cbegin(other.lengths()), std::cend(other.lengths()));
+            rich_line_data_base_type::_azimuths.assign(std::cbegin(other.azimuths()), std::cend(other.azimuths()));
             rich_line_base_type::line().assign(std::cbegin(other.line()), std::cend(other.line()));
             return *this;
         }
diff --git a/src/library/include/geometry/rich_type/lazy_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
index b67ef70..eb699bc 100644
--- a/src/library/include/geometry/rich_type/lazy_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
@@ -162,6 +162,7 @@ namespace map_matching_2::geometry {
             template<typename> typename AllocatorT>
         constexpr lazy_rich_line &operator=(const rich_line<point_type, ContainerT, AllocatorT> &other) {
             rich_line_base_type::line().assign(std::cbegin(other.line()), std::cend(other.line()));
+            rich_line_data_base_type::_invalidate();
             return *this;
         }
 
diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index c8e065e..75b83b8 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -117,8 +117,8 @@ namespace map_matching_2::geometry {
             _azimuth = other.azimuth();
             _directions = other.directions();
             _absolute_directions = other.absolute_directions();
-            std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()), std::back_inserter(_lengths));
-            std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()), std::back_inserter(_azimuths));
+            _lengths.assign(std::cbegin(other.lengths()), std::cend(other.lengths()));
+            _azimuths.assign(std::cbegin(other.azimuths()), std::cend(other.azimuths()));
             return *this;
         }
 
-- 
2.43.0


From c73f350326702b7785493ebda1c055710cf953ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 05/24] fix: computing the directions initializes the azimuth
 of a single segment

---
 src/library/include/geometry/rich_type/rich_line_data.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index 75b83b8..fe6059f 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -403,6 +403,10 @@ namespace map_matching_2::geometry {
 
                 _compute_azimuths(rich_line);
 
+                if (_azimuths.size() == 1) {
+                    _initialize_azimuth(rich_line, 0);
+                }
+
                 if (_azimuths.size() >= 2) {
                     bool has_directions = false;
                     angle_type directions = default_float_type<angle_type>::v0;
-- 
2.43.0


From 366e34155e2179cccc7a5b0169eef0819656d8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 06/24] fix: directions of an empty list of segments are empty
 instead of throwing length_error

---
 src/library/include/geometry/algorithm/direction.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/algorithm/direction.hpp b/src/library/include/geometry/algorithm/direction.hpp
index f26ae76..67a4af6 100644
--- a/src/library/include/geometry/algorithm/direction.hpp
+++ b/src/library/include/geometry/algorithm/direction.hpp
@@ -90,7 +90,7 @@ namespace map_matching_2::geometry {
 
         Container<angle_type, allocator_type> directions;
         if constexpr (util::has_reserve<Container<angle_type, allocator_type>>) {
-            directions.reserve(segments.size() - 1);
+            directions.reserve(segments.empty() ? 0 : segments.size() - 1);
         }
         if (segments_azimuths.empty()) {
             for (std::size_t i = 0, j = 1; j < segments.size(); ++i, ++j) {
@@ -123,7 +123,7 @@ namespace map_matching_2::geometry {
 
         Container<angle_type, allocator_type> directions;
         if constexpr (util::has_reserve<Container<angle_type, allocator_type>>) {
-            directions.reserve(segments.size() - 1);
+            directions.reserve(segments.empty() ? 0 : segments.size() - 1);
         }
         if (segments_azimuths.empty()) {
             for (std::size_t i = 0, j = 1; j < segments.size(); ++i, ++j) {
@@ -159,8 +159,8 @@ namespace map_matching_2::geometry {
         Container<angle_type, allocator_type> directions;
         Container<angle_type, allocator_type> absolute_directions;
         if constexpr (util::has_reserve<Container<angle_type, allocator_type>>) {
-            directions.reserve(segments.size() - 1);
-            absolute_directions.reserve(segments.size() - 1);
+            directions.reserve(segments.empty() ? 0 : segments.size() - 1);
+            absolute_directions.reserve(segments.empty() ? 0 : segments.size() - 1);
         }
         if (segments_azimuths.empty()) {
             for (std::size_t i = 0, j = 1; j < segments.size(); ++i, ++j) {
-- 
2.43.0


From 9f6481c37adb5109ec63bb52226e1d8798076943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 07/24] fix: median of an even number of elements keeps the
 upper middle element in place

---
 src/library/include/geometry/algorithm/median.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/geometry/algorithm/median.hpp b/src/library/include/geometry/algorithm/median.hpp
index d208ae0..bccbcab 100644
--- a/src/library/include/geometry/algorithm/median.hpp
+++ b/src/library/include/geometry/algorithm/median.hpp
@@ -35,7 +35,7 @@ namespace map_matching_2::geometry {
         if (container.size() % 2 == 1) {
             return container[middle];
         } else {
-            std::nth_element(container.begin(), container.begin() + middle - 1, container.end());
+            std::nth_element(container.begin(), container.begin() + middle - 1, container.begin() + middle);
             return (container[middle - 1] + container[middle]) / static_cast<Element>(2);
         }
     }
-- 
2.43.0


From ff5b832815c7b5f0ba57469b07f6c0092a57688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 08/24] fix: the distance and azimuth caches tell coordinate
 systems apart

---
 .../include/geometry/algorithm/azimuth.hpp        |  1 +
 .../include/geometry/algorithm/distance.hpp       |  1 +
 src/library/include/geometry/cache.hpp            | 15 ++++++++++++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/library/include/geometry/algorithm/azimuth.hpp b/src/library/include/geometry/algorithm/azimuth.hpp
index 2ebf1c4..8577592 100644
--- a/src/library/include/geometry/algorithm/azimuth.hpp
+++ b/src/library/include/geometry/algorithm/azimuth.hpp
@@ -36,6 +36,7 @@ namespace map_matching_2::geometry {
             }
 
             const auto key = _cache_key_type{
+                    _cache_coordinate_system<Point>(),
                     boost::geometry::get<0>(a), boost::geometry::get<1>(a),
                     boost::geometry::get<0>(b), boost::geometry::get<1>(b)
             };
diff --git a/src/library/include/geometry/algorithm/distance.hpp b/src/library/include/geometry/algorithm/distance.hpp
index 56483d3..eb7af75 100644
--- a/src/library/include/geometry/algorithm/distance.hpp
+++ b/src/library/include/geometry/algorithm/distance.hpp
@@ -47,6 +47,7 @@ namespace map_matching_2::geometry {
             }
 
             const auto key = _cache_key_type{
+                    _cache_coordinate_system<PointA>(),
                     boost::geometry::get<0>(a), boost::geometry::get<1>(a),
                     boost::geometry::get<0>(b), boost::geometry::get<1>(b)
             };
diff --git a/src/library/include/geometry/cache.hpp b/src/library/include/geometry/cache.hpp
index 78100e5..915b733 100644
--- a/src/library/include/geometry/cache.hpp
+++ b/src/library/include/geometry/cache.hpp
@@ -42,7 +42,20 @@ namespace map_matching_2::geometry {
         data<point_type<cs_spherical_equatorial>>::angle_type,
         data<point_type<cs_cartesian>>::angle_type>;
 
-    using _cache_key_type = std::tuple<_coordinate_type, _coordinate_type, _coordinate_type, _coordinate_type>;
+    // the same coordinates have different distances and azimuths in different coordinate systems
+    template<typename Geometry>
+    [[nodiscard]] constexpr int _cache_coordinate_system() {
+        using coordinate_system_type = typename boost::geometry::coordinate_system<Geometry>::type;
+        if constexpr (std::same_as<coordinate_system_type, cs_geographic>) {
+            return 0;
+        } else if constexpr (std::same_as<coordinate_system_type, cs_spherical_equatorial>) {
+            return 1;
+        } else {
+            return 2;
+        }
+    }
+
+    using _cache_key_type = std::tuple<int, _coordinate_type, _coordinate_type, _coordinate_type, _coordinate_type>;
     using distance_cache_type = boost::unordered::unordered_flat_map<_cache_key_type, _distance_type>;
     using azimuth_cache_type = boost::unordered::unordered_flat_map<_cache_key_type, _angle_type>;
 
-- 
2.43.0


From 44a51e52ad83b19e6e3a47429b1a984798772b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 09/24] fix: length of spherical lines is in meter, like the
 distance of points

---
 src/library/include/geometry/algorithm/length.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/include/geometry/algorithm/length.hpp b/src/library/include/geometry/algorithm/length.hpp
index 28c6b56..82915d8 100644
--- a/src/library/include/geometry/algorithm/length.hpp
+++ b/src/library/include/geometry/algorithm/length.hpp
@@ -28,7 +28,8 @@ namespace map_matching_2::geometry {
     length(const Geometry &geometry) {
         using coordinate_system_type = typename boost::geometry::coordinate_system<Geometry>::type;
         if constexpr (std::same_as<coordinate_system_type, cs_spherical_equatorial>) {
-            return boost::geometry::length(geometry, boost::geometry::strategy::distance::haversine(6371));
+            // mean radius of earth is 6371 km, and we want the result in meter
+            return boost::geometry::length(geometry, boost::geometry::strategy::distance::haversine(6371.0 * 1000));
         } else {
             return boost::geometry::length(geometry);
         }
-- 
2.43.0


From 21fd7be60fb4a78ddd3c1dd61e8d89eefaf11637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:01 +0000
Subject: [PATCH 10/24] fix: do not remove a vertex of a bidirectional graph
 that still has ingoing edges

---
 src/library/include/graph/adjacency_list.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/library/include/graph/adjacency_list.hpp b/src/library/include/graph/adjacency_list.hpp
index fcc3057..693aecd 100644
--- a/src/library/include/graph/adjacency_list.hpp
+++ b/src/library/include/graph/adjacency_list.hpp
@@ -1014,6 +1014,12 @@ namespace map_matching_2::graph {
                 throw std::runtime_error("vertex is still connected.");
             }
 
+            if constexpr (is_bidirectional_v) {
+                if (not in_edges_view(vertex).empty()) {
+                    throw std::runtime_error("vertex is still connected.");
+                }
+            }
+
             vertices.erase(vertex);
         }
 
-- 
2.43.0


From 6d4bc0a06e6698e2936a5e5c969d41f02d3c5a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:01 +0000
Subject: [PATCH 11/24] fix: take the edge to remove by value, it may be an
 entry of the edge list it is removed from

---
 src/library/include/graph/adjacency_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/graph/adjacency_list.hpp b/src/library/include/graph/adjacency_list.hpp
index 693aecd..ce15569 100644
--- a/src/library/include/graph/adjacency_list.hpp
+++ b/src/library/include/graph/adjacency_list.hpp
@@ -1131,7 +1131,7 @@ namespace map_matching_2::graph {
             }
         }
 
-        void remove_edge(const edge_descriptor &edge_desc) requires
+        void remove_edge(const edge_descriptor edge_desc) requires
             (not util::is_random_access_v<edge_container> and
                 not util::is_random_access_v<out_edge_container> and
                 (not is_bidirectional_v or not util::is_random_access_v<in_edge_container>)) {
-- 
2.43.0


From 26b6f727f9299e6464397c4fe5f54a9c95763490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 12/24] fix: container_view::at checks position 0 and accepts
 the last reverse position

---
 src/library/include/graph/container_view.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/library/include/graph/container_view.hpp b/src/library/include/graph/container_view.hpp
index 7b46456..25eca64 100644
--- a/src/library/include/graph/container_view.hpp
+++ b/src/library/include/graph/container_view.hpp
@@ -69,20 +69,18 @@ namespace map_matching_2::graph {
         }
 
         [[nodiscard]] constexpr const value_type &at(difference_type pos) const {
-            if (pos > 0) {
-                if (pos >= size()) {
+            if (pos >= 0) {
+                if (static_cast<size_type>(pos) >= size()) {
                     throw std::invalid_argument{std::format("pos {} out of range, size: {}", pos, size())};
                 }
 
                 return operator[](next(begin(), pos));
-            } else if (pos < 0) {
-                if (std::abs(pos) >= size()) {
+            } else {
+                if (static_cast<size_type>(-(pos + 1)) >= size()) {
                     throw std::invalid_argument{std::format("reverse pos {} out of range, size: {}", pos, size())};
                 }
 
-                return operator[](prev(end(), std::abs(pos)));
-            } else {
-                return operator[](begin());
+                return operator[](prev(end(), -pos));
             }
         }
 
-- 
2.43.0


From a1bd008b20f1fb4dbd7793f6f141fda6b690c1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 13/24] fix: container_subview::at and back compile and at
 checks its position

---
 .../include/graph/container_subview.hpp       | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/library/include/graph/container_subview.hpp b/src/library/include/graph/container_subview.hpp
index c58f805..81d221b 100644
--- a/src/library/include/graph/container_subview.hpp
+++ b/src/library/include/graph/container_subview.hpp
@@ -58,10 +58,18 @@ namespace map_matching_2::graph {
         constexpr ~container_subview() = default;
 
         [[nodiscard]] constexpr const value_type &at(difference_type pos) const {
-            if (pos > 0) {
-                return base_type::operator[](next(begin(), pos));
+            if (pos >= 0) {
+                if (static_cast<size_type>(pos) >= size()) {
+                    throw std::invalid_argument{std::format("pos {} out of range, size: {}", pos, size())};
+                }
+
+                return base_type::operator[](this->next(begin(), pos));
             } else {
-                return base_type::operator[](begin());
+                if (static_cast<size_type>(-(pos + 1)) >= size()) {
+                    throw std::invalid_argument{std::format("reverse pos {} out of range, size: {}", pos, size())};
+                }
+
+                return base_type::operator[](this->prev(end(), -pos));
             }
         }
 
@@ -84,7 +92,7 @@ namespace map_matching_2::graph {
             if (empty() or _stop == 0) {
                 throw std::out_of_range{std::format("out of range access to back with {}", _stop)};
             }
-            return base_type::operator[](prev(end()));
+            return base_type::operator[](this->prev(end()));
         }
 
         [[nodiscard]] constexpr value_type &back() {
@@ -108,11 +116,11 @@ namespace map_matching_2::graph {
         }
 
         [[nodiscard]] constexpr descriptor end() const requires std::is_same_v<const_iterator, descriptor> {
-            return next(_stop >= this->_ref.size()) ? std::cend(this->_ref) : std::next(std::cbegin(this->_ref), _stop);
+            return _stop >= this->_ref.size() ? std::cend(this->_ref) : std::next(std::cbegin(this->_ref), _stop);
         }
 
         [[nodiscard]] constexpr descriptor end() const requires std::is_same_v<iterator, descriptor> {
-            return next(_stop >= this->_ref.size()) ? std::end(this->_ref) : std::next(std::begin(this->_ref), _stop);
+            return _stop >= this->_ref.size() ? std::end(this->_ref) : std::next(std::begin(this->_ref), _stop);
         }
 
         [[nodiscard]] constexpr size_type size() const {
-- 
2.43.0


From 48eccc6bf3b9884b9fa2debd49df00ca603813b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:18 +0000
Subject: [PATCH 14/24] fix: a_star_shortest_paths returns no path when the
 goal is not reached

---
 src/library/include/geometry/network/network.hpp | 10 ++++++----
 src/library/include/matching/algorithm/route.hpp |  7 +++++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index a1721e4..2404098 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -280,10 +280,12 @@ namespace map_matching_2::geometry::network {
                     predecessors, distances, colors, queue, visitor, weight_func, heuristic_func);
 
             std::list<vertex_descriptor> shortest_path;
-            for (vertex_descriptor vertex = goal;; vertex = predecessors[vertex]) {
-                shortest_path.emplace_front(vertex);
-                if (predecessors[vertex] == vertex)
-                    break;
+            if (predecessors.contains(goal)) {
+                for (vertex_descriptor vertex = goal;; vertex = predecessors[vertex]) {
+                    shortest_path.emplace_front(vertex);
+                    if (predecessors[vertex] == vertex)
+                        break;
+                }
             }
 
             predecessors.clear();
diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index 1101e13..edca71d 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -117,8 +117,11 @@ namespace map_matching_2::matching {
 
                 std::vector<std::list<vertex_descriptor>> shortest_paths;
                 if (a_star) {
-                    shortest_paths.emplace_back(
-                            this->shortest_path(candidates, from, source, to, target, max_distance_factor));
+                    auto a_star_path = this->shortest_path(
+                            candidates, from, source, to, target, max_distance_factor);
+                    if (not a_star_path.empty()) {
+                        shortest_paths.emplace_back(std::move(a_star_path));
+                    }
                 } else {
                     shortest_paths = this->shortest_paths(candidates, from, source, to, max_distance_factor);
                 }
-- 
2.43.0


From 5ed30d529100e08eb1239b7d1132df28bd418c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:18 +0000
Subject: [PATCH 15/24] fix: a target too far over one edge stays reachable
 over a shorter way within the maximum distance

---
 src/library/include/geometry/network/network.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 2404098..767a1b4 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -428,10 +428,15 @@ namespace map_matching_2::geometry::network {
                 const auto distance_source = _distances[source];
                 const auto weight = _weight_func(graph.get_edge_data(edge_desc));
                 const auto distance_target = distance_source + weight;
-                if (distance_target > _max_distance_factor * _max_distance) {
-                    // disable target
-                    const vertex_descriptor &target = graph.target(edge_desc);
-                    _colors[target] = graph::color::BLACK;
+                const vertex_descriptor &target = graph.target(edge_desc);
+                if (not _distances.contains(target)) {
+                    if (distance_target > _max_distance_factor * _max_distance) {
+                        // disable target for this edge
+                        _colors[target] = graph::color::BLACK;
+                    } else {
+                        // target may have been disabled by a longer edge before
+                        _colors.erase(target);
+                    }
                 }
             }
 
-- 
2.43.0


From c270b0f6bfaa43b7ed8d9b68d26a954f8820f628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:08 +0000
Subject: [PATCH 16/24] fix: edges between coinciding points count as length
 zero in shortest paths and routes

---
 .../include/geometry/network/network.hpp      | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 767a1b4..fa08d1c 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -219,8 +219,11 @@ namespace map_matching_2::geometry::network {
                 graph::distances_type<length_type> &distances,
                 graph::colors_type &colors,
                 graph::priority_queue_type<graph::priority_type<length_type, vertex_descriptor>> &queue) const {
-            constexpr auto weight_func = [](const edge_data_type &edge) constexpr {
-                return edge.rich_line.length();
+            constexpr auto weight_func = [](const edge_data_type &edge) constexpr -> length_type {
+                // edges between coinciding points have no length
+                return edge.rich_line.has_length()
+                           ? edge.rich_line.length()
+                           : geometry::default_float_type<length_type>::v0;
             };
 
             boost::unordered_flat_set<vertex_descriptor> goals_found;
@@ -261,8 +264,11 @@ namespace map_matching_2::geometry::network {
                 graph::distances_type<length_type> &distances,
                 graph::colors_type &colors,
                 graph::priority_queue_type<graph::priority_type<length_type, vertex_descriptor>> &queue) const {
-            constexpr auto weight_func = [](const edge_data_type &edge) constexpr {
-                return edge.rich_line.length();
+            constexpr auto weight_func = [](const edge_data_type &edge) constexpr -> length_type {
+                // edges between coinciding points have no length
+                return edge.rich_line.has_length()
+                           ? edge.rich_line.length()
+                           : geometry::default_float_type<length_type>::v0;
             };
 
             const auto heuristic_func = [this](const vertex_descriptor &vertex_desc,
@@ -319,11 +325,12 @@ namespace map_matching_2::geometry::network {
                     for (auto it = out_edges_v.begin(); it != out_edges_v.end(); it = out_edges_v.next(it)) {
                         if (this->graph().target(it) == *next_vertex_it) {
                             const edge_data_type &edge = this->graph().get_edge_data(it);
-                            if (not edge.rich_line.empty() and
-                                (not edge.rich_line.has_length() or edge.rich_line.length() < shortest_length)) {
-                                if (edge.rich_line.has_length()) {
-                                    shortest_length = edge.rich_line.length();
-                                }
+                            // edges between coinciding points have no length
+                            const length_type length = edge.rich_line.has_length()
+                                                           ? edge.rich_line.length()
+                                                           : geometry::default_float_type<length_type>::v0;
+                            if (not edge.rich_line.empty() and length < shortest_length) {
+                                shortest_length = length;
                                 rich_line_ptr = &edge.rich_line;
                             }
                         }
-- 
2.43.0


From 641757dda1fdebe6171732adff06cf97c61abe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:14 +0000
Subject: [PATCH 17/24] fix: assigning a plain multi rich line drops the
 attributes of the old lines

---
 src/library/include/geometry/rich_type/eager_multi_rich_line.hpp | 1 +
 src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
index 8747488..22f9f3f 100644
--- a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
@@ -130,6 +130,7 @@ namespace map_matching_2::geometry {
         template<typename RichLineTypeT>
         eager_multi_rich_line &operator=(const multi_rich_line<RichLineTypeT> &other) {
             multi_rich_line_base_type::operator=(other);
+            multi_rich_line_data_base_type::_invalidate();
             multi_rich_line_data_base_type::_compute(*this);
             return *this;
         }
diff --git a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
index e30ba5e..1cfc9c5 100644
--- a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
@@ -113,6 +113,7 @@ namespace map_matching_2::geometry {
         template<typename RichLineTypeT>
         constexpr lazy_multi_rich_line &operator=(const multi_rich_line<RichLineTypeT> &other) {
             multi_rich_line_base_type::operator=(other);
+            multi_rich_line_data_base_type::_invalidate();
             return *this;
         }
 
-- 
2.43.0


From 8ea75f891d1b7fcaa310321fed1cb5bddb223e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:14 +0000
Subject: [PATCH 18/24] fix: eager multi rich lines can be made and assigned
 from lazy ones

---
 .../rich_type/eager_multi_rich_line.hpp       | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
index 22f9f3f..f011089 100644
--- a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
@@ -107,13 +107,8 @@ namespace map_matching_2::geometry {
             template<typename, typename> typename ContainerT = Container,
             template<typename> typename AllocatorT = Allocator>
         eager_multi_rich_line(const lazy_multi_rich_line<RichLineTypeT, ContainerT, AllocatorT> &other)
-            : multi_rich_line_data_base_type{
-                    other.length(), other.azimuth(), other.directions(), other.absolute_directions()
-            }, multi_rich_line_base_type{other} {
-            std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()),
-                    std::back_inserter(multi_rich_line_data_base_type::_lengths));
-            std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()),
-                    std::back_inserter(multi_rich_line_data_base_type::_azimuths));
+            : multi_rich_line_data_base_type{other}, multi_rich_line_base_type{other} {
+            multi_rich_line_data_base_type::_compute(*this);
         }
 
         constexpr eager_multi_rich_line(eager_multi_rich_line &&other) noexcept
@@ -140,15 +135,9 @@ namespace map_matching_2::geometry {
             template<typename> typename AllocatorT = Allocator>
         eager_multi_rich_line &
         operator=(const lazy_multi_rich_line<RichLineTypeT, ContainerT, AllocatorT> &other) {
-            multi_rich_line_data_base_type::_length = other.length();
-            multi_rich_line_data_base_type::_azimuth = other.azimuth();
-            multi_rich_line_data_base_type::_directions = other.directions();
-            multi_rich_line_data_base_type::_absolute_directions = other.absolute_directions();
-            std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()),
-                    std::back_inserter(multi_rich_line_data_base_type::_lengths));
-            std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()),
-                    std::back_inserter(multi_rich_line_data_base_type::_azimuths));
+            multi_rich_line_data_base_type::operator=(other);
             multi_rich_line_base_type::operator=(other);
+            multi_rich_line_data_base_type::_compute(*this);
             return *this;
         }
 
-- 
2.43.0


From d94fe6552e3036c47000929359f28d2368db5fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:14 +0000
Subject: [PATCH 19/24] fix: merging lines into a multi rich line updates its
 attributes

---
 .../include/geometry/rich_type/eager_multi_rich_line.hpp  | 8 ++++++++
 .../include/geometry/rich_type/lazy_multi_rich_line.hpp   | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
index f011089..05de5de 100644
--- a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
@@ -179,6 +179,14 @@ namespace map_matching_2::geometry {
             return multi_rich_line_data_base_type::absolute_directions();
         }
 
+        template<is_rich_line RichLineT>
+        eager_multi_rich_line &merge(std::vector<RichLineT> &&rich_lines) {
+            multi_rich_line_base_type::merge(std::move(rich_lines));
+            multi_rich_line_data_base_type::_invalidate();
+            multi_rich_line_data_base_type::_compute(*this);
+            return *this;
+        }
+
     };
 
 }
diff --git a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
index 1cfc9c5..0250fed 100644
--- a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
@@ -172,6 +172,13 @@ namespace map_matching_2::geometry {
             return multi_rich_line_data_base_type::absolute_directions();
         }
 
+        template<is_rich_line RichLineT>
+        lazy_multi_rich_line &merge(std::vector<RichLineT> &&rich_lines) {
+            multi_rich_line_base_type::merge(std::move(rich_lines));
+            multi_rich_line_data_base_type::_invalidate();
+            return *this;
+        }
+
     };
 
 }
-- 
2.43.0


From c0fc180fcfbb9d127c24e454e2888cf3a828270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:14 +0000
Subject: [PATCH 20/24] fix: joining lazy and eager routes updates their
 attributes

---
 src/library/include/geometry/network/route/eager_route.hpp | 6 +++++-
 src/library/include/geometry/network/route/lazy_route.hpp  | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/route/eager_route.hpp b/src/library/include/geometry/network/route/eager_route.hpp
index 1cd7fc5..cfeedd6 100644
--- a/src/library/include/geometry/network/route/eager_route.hpp
+++ b/src/library/include/geometry/network/route/eager_route.hpp
@@ -161,7 +161,11 @@ namespace map_matching_2::geometry::network {
 
         template<is_rich_line RichLineT, is_route RouteT = eager_route>
         static void join(RouteT &a, RouteT &b, bool retain_reversal = false) {
-            return route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            a._invalidate();
+            b._invalidate();
+            a._compute(a);
+            b._compute(b);
         }
 
     };
diff --git a/src/library/include/geometry/network/route/lazy_route.hpp b/src/library/include/geometry/network/route/lazy_route.hpp
index ff585e4..5a4040a 100644
--- a/src/library/include/geometry/network/route/lazy_route.hpp
+++ b/src/library/include/geometry/network/route/lazy_route.hpp
@@ -163,7 +163,9 @@ namespace map_matching_2::geometry::network {
 
         template<is_rich_line RichLineT, is_route RouteT = lazy_route>
         static void join(RouteT &a, RouteT &b, bool retain_reversal = false) {
-            return route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            a._invalidate();
+            b._invalidate();
         }
 
     };
-- 
2.43.0


From d78ac67a5f13a231cd9488296012def1214579f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:14 +0000
Subject: [PATCH 21/24] fix: no direction into a line of a single point

---
 src/library/include/geometry/network/route/route.hpp      | 6 +++---
 src/library/include/geometry/network/route/route_data.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index 6688258..3174979 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -292,7 +292,7 @@ namespace map_matching_2::geometry::network {
                         // check if rich lines are attached
                         if (_attaches(curr_rich_line, next_rich_line)) {
                             // has direction only when attached
-                            if (_size(curr_rich_line) >= 2 and
+                            if (_size(curr_rich_line) >= 2 and _size(next_rich_line) >= 2 and
                                 _has_azimuth(curr_rich_line, _size(curr_rich_line) - 2) and
                                 _has_azimuth(next_rich_line, 0)) {
                                 return true;
@@ -332,7 +332,7 @@ namespace map_matching_2::geometry::network {
                         // check if rich lines are attached
                         if (_attaches(curr_rich_line, next_rich_line)) {
                             // add direction inbetween only when attached
-                            if (_size(curr_rich_line) >= 2 and
+                            if (_size(curr_rich_line) >= 2 and _size(next_rich_line) >= 2 and
                                 _has_azimuth(curr_rich_line, _size(curr_rich_line) - 2) and
                                 _has_azimuth(next_rich_line, 0)) {
                                 const auto direction = geometry::direction_deg(
@@ -383,7 +383,7 @@ namespace map_matching_2::geometry::network {
                         // check if rich lines are attached
                         if (_attaches(curr_rich_line, next_rich_line)) {
                             // add direction inbetween only when attached
-                            if (_size(curr_rich_line) >= 2 and
+                            if (_size(curr_rich_line) >= 2 and _size(next_rich_line) >= 2 and
                                 _has_azimuth(curr_rich_line, _size(curr_rich_line) - 2) and
                                 _has_azimuth(next_rich_line, 0)) {
                                 const auto direction = geometry::direction_deg(
diff --git a/src/library/include/geometry/network/route/route_data.hpp b/src/library/include/geometry/network/route/route_data.hpp
index 667cbff..93de2f4 100644
--- a/src/library/include/geometry/network/route/route_data.hpp
+++ b/src/library/include/geometry/network/route/route_data.hpp
@@ -241,7 +241,7 @@ namespace map_matching_2::geometry::network {
                             if (route_type::_attaches(curr_rich_line, next_rich_line)) {
                                 // add direction inbetween only when attached
                                 const auto _curr_size = route_type::_size(curr_rich_line);
-                                if (_curr_size >= 2 and
+                                if (_curr_size >= 2 and route_type::_size(next_rich_line) >= 2 and
                                     route_type::_has_azimuth(curr_rich_line, _curr_size - 2) and
                                     route_type::_has_azimuth(next_rich_line, 0)) {
                                     const auto direction = geometry::direction_deg(
-- 
2.43.0


From 16503d6aeed9537a20c1783797da2e25767bc383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:14 +0000
Subject: [PATCH 22/24] fix: sub_route keeps own lines that follow a referenced
 line

---
 src/library/include/geometry/network/route/route.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index 3174979..bba8a47 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -481,19 +481,19 @@ namespace map_matching_2::geometry::network {
                 auto copy_rich_line = [&](const rich_line_reference_variant_type &rich_line_ref,
                         auto &next_rich_it, const auto &end_rich_it) {
                     bool data_moved = false;
-                    while (next_rich_it != end_rich_it) {
-                        const rich_line_variant_type &next_rich_line = *next_rich_it;
+                    // look ahead, so that own lines after a referenced line are still found
+                    for (auto rich_it = next_rich_it; rich_it != end_rich_it; ++rich_it) {
+                        const rich_line_variant_type &next_rich_line = *rich_it;
                         if (_equal_reference(next_rich_line, rich_line_ref)) {
                             // reference has local data, move it
                             const auto &_own_rich_line = new_rich_lines.emplace_back(next_rich_line);
                             std::visit([&new_references](auto &&_rich_line) {
                                 new_references.emplace_back(std::cref(_rich_line));
                             }, _own_rich_line);
-                            ++next_rich_it;
+                            next_rich_it = std::next(rich_it);
                             data_moved = true;
                             break;
                         }
-                        ++next_rich_it;
                     }
 
                     // only reference movement
-- 
2.43.0


From 21f88d7d936338bf2cac878102ae3536c6a9506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:14 +0000
Subject: [PATCH 23/24] fix: sub_route with both positions on the same line

---
 src/library/include/geometry/network/route/route.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index bba8a47..0b4099e 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -527,6 +527,14 @@ namespace map_matching_2::geometry::network {
                 std::vector<_route_type> routes{};
                 routes.reserve(to - from + 2); // plus two for possible from_pos and to_pos sub_rich_lines
 
+                if (from_pos > 0 and from + 1 == to and to_pos < _size(_rich_lines[from])) {
+                    // both positions are on the same line
+                    routes.emplace_back(_route_type{
+                            _as<_rich_line_type>(_rich_lines[from]).sub_rich_line(from_pos, to_pos)
+                    });
+                    return merge<_rich_line_type, _route_type>(std::move(routes));
+                }
+
                 if (from_pos > 0) {
                     routes.emplace_back(_route_type{
                             _as<_rich_line_type>(_rich_lines[from]).
-- 
2.43.0


From f577c38aa6b6f3a452a801c9faf913d35f3accaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:14 +0000
Subject: [PATCH 24/24] fix: sub_route error message does not read before the
 first line

---
 src/library/include/geometry/network/route/route.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index 0b4099e..df8219d 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -562,7 +562,7 @@ namespace map_matching_2::geometry::network {
                     from < size() and not _empty(_rich_lines[from])
                     ? _size(_rich_lines[from])
                     : -1,
-                    to <= size() and not _empty(_rich_lines[to - 1])
+                    to > 0 and to <= size() and not _empty(_rich_lines[to - 1])
                     ? _size(_rich_lines[to - 1])
                     : -1));
         }
-- 
2.43.0

