From 594776d5b80c271fa765f55746c426d44b5e1abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:09 +0000
Subject: [PATCH 01/26] fix: check the short way round of in-place turns for
 odd numbers of angles

---
 planner_cspace/src/grid_astar_model_3dof.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/planner_cspace/src/grid_astar_model_3dof.cpp b/planner_cspace/src/grid_astar_model_3dof.cpp
index 8516757..d055b8a 100644
--- a/planner_cspace/src/grid_astar_model_3dof.cpp
+++ b/planner_cspace/src/grid_astar_model_3dof.cpp
@@ -176,6 +176,11 @@ float GridAstarModel3D::cost(
   }
   Vec d_raw = next - cur;
   d_raw.cycle(map_info_.angle);
+  if (-d_raw[2] * 2 > static_cast<int>(map_info_.angle))
+  {
+    // Odd number of angles, the other direction is shorter
+    d_raw[2] += map_info_.angle;
+  }
   const Vec d = d_raw;
   float cost = euclidCost(d);
 
-- 
2.43.0


From 1228dfafaf5150f1e436f6941a0a8b1daee10acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:14 +0000
Subject: [PATCH 02/26] fix: make incremental distance map updates equal
 recomputation

Movements of the rough search jump up to four cells, so distances which
become wrong and distances to search again from are not only those
4-connected to the cheapest cell of the updated area.
---
 planner_cspace/src/distance_map.cpp | 46 +++++++++++++++++------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/planner_cspace/src/distance_map.cpp b/planner_cspace/src/distance_map.cpp
index e4bcb55..85ee8d3 100644
--- a/planner_cspace/src/distance_map.cpp
+++ b/planner_cspace/src/distance_map.cpp
@@ -27,6 +27,7 @@
  * POSSIBILITY OF SUCH DAMAGE.
  */
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <unordered_map>
@@ -43,6 +44,12 @@ namespace planner_cspace
 {
 namespace planner_3d
 {
+namespace
+{
+// Maximum length of the movement considered in the distance map search
+constexpr int RANGE_ROUGH = 4;
+}  // namespace
+
 void DistanceMap::fillCostmap(
     reservable_priority_queue<Astar::PriorityVec>& open,
     const Astar::Vec& s_rough)
@@ -211,7 +218,7 @@ void DistanceMap::init(const GridAstarModel3D::Ptr model, const Params& p)
   p_ = p;
   search_diffs_.clear();
 
-  const int range_rough = 4;
+  const int range_rough = RANGE_ROUGH;
   for (Astar::Vec d(-range_rough, 0, 0); d[0] <= range_rough; d[0]++)
   {
     for (d[1] = -range_rough; d[1] <= range_rough; d[1]++)
@@ -258,16 +265,23 @@ void DistanceMap::update(
     create(s, e);
     return;
   }
-  Astar::Vec p_cost_min;
+  pq_open_.clear();
+  pq_erase_.clear();
+
   float cost_min = std::numeric_limits<float>::max();
-  for (Astar::Vec p(0, rect.min[1], 0); p[1] <= rect.max[1]; p[1]++)
+  if (rect.min[0] <= rect.max[0] && rect.min[1] <= rect.max[1])
   {
-    for (p[0] = rect.min[0]; p[0] <= rect.max[0]; p[0]++)
+    // Movements passing through the updated area end within the movement range from there
+    const int x_max = std::min(rect.max[0] + RANGE_ROUGH, p_.size[0] - 1);
+    const int y_max = std::min(rect.max[1] + RANGE_ROUGH, p_.size[1] - 1);
+    for (Astar::Vec p(0, std::max(rect.min[1] - RANGE_ROUGH, 0), 0); p[1] <= y_max; p[1]++)
     {
-      if (cost_min > g_[p])
+      for (p[0] = std::max(rect.min[0] - RANGE_ROUGH, 0); p[0] <= x_max; p[0]++)
       {
-        p_cost_min = p;
-        cost_min = g_[p];
+        if (g_[p] == std::numeric_limits<float>::max())
+          continue;
+        cost_min = std::min(cost_min, g_[p]);
+        pq_erase_.emplace(0.0, 0.0, p);
       }
     }
   }
@@ -277,8 +291,6 @@ void DistanceMap::update(
     create(s, e);
     return;
   }
-  pq_open_.clear();
-  pq_erase_.clear();
 
   if (s_rough.isExceeded(cm_rough_.size()) || e_rough.isExceeded(cm_rough_.size()))
   {
@@ -286,11 +298,6 @@ void DistanceMap::update(
     return;
   }
 
-  if (cost_min != std::numeric_limits<float>::max())
-  {
-    pq_erase_.emplace(0.0, 0.0, p_cost_min);
-  }
-
   if (g_[s_rough] > cost_min)
   {
     pq_erase_.emplace(0.0, 0.0, s_rough);
@@ -308,12 +315,10 @@ void DistanceMap::update(
       continue;
     g_[p] = std::numeric_limits<float>::max();
 
-    for (Astar::Vec d(-1, 0, 0); d[0] <= 1; d[0]++)
+    for (Astar::Vec d(-RANGE_ROUGH, 0, 0); d[0] <= RANGE_ROUGH; d[0]++)
     {
-      for (d[1] = -1; d[1] <= 1; d[1]++)
+      for (d[1] = -RANGE_ROUGH; d[1] <= RANGE_ROUGH; d[1]++)
       {
-        if (!((d[0] == 0) ^ (d[1] == 0)))
-          continue;
         Astar::Vec next = p + d;
         next[2] = 0;
         if ((unsigned int)next[0] >= (unsigned int)p_.size[0] ||
@@ -324,9 +329,12 @@ void DistanceMap::update(
           continue;
         if (gn < cost_min)
         {
-          pq_open_.emplace(gn, gn, next);
+          // Erased cells may be reachable from here by one movement
+          edges_buf_[next[0] + next[1] * p_.size[0]] = true;
           continue;
         }
+        if (std::abs(d[0]) > 1 || std::abs(d[1]) > 1)
+          continue;
         pq_erase_.emplace(0.0, 0.0, next);
         edges_buf_[next[0] + next[1] * p_.size[0]] = false;
       }
-- 
2.43.0


From 9345bdc172bab8c3769b0680b47605e3903a4bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:57 +0000
Subject: [PATCH 03/26] fix: refresh and publish the region affected by spread
 overlay obstacles and ancestors' overlays

---
 .../costmap_cspace/costmap_3d_layer/base.h    | 55 ++++++++++++-------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
index 81589dc..c46913a 100644
--- a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
+++ b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
@@ -265,6 +265,7 @@ protected:
   Costmap3dLayerBase::Ptr child_;
   UpdatedRegion region_;
   UpdatedRegion region_prev_;
+  UpdatedRegion region_parent_;
   nav_msgs::OccupancyGrid::ConstPtr map_updated_;
 
 public:
@@ -350,25 +351,12 @@ public:
   {
     ROS_ASSERT(!root_);
     ROS_ASSERT(ang_grid_ > 0);
-    const int ox =
-        std::lround((msg->info.origin.position.x - map_->info.origin.position.x) /
-                    map_->info.linear_resolution);
-    const int oy =
-        std::lround((msg->info.origin.position.y - map_->info.origin.position.y) /
-                    map_->info.linear_resolution);
-
-    const int w =
-        std::lround(msg->info.width * msg->info.resolution / map_->info.linear_resolution);
-    const int h =
-        std::lround(msg->info.height * msg->info.resolution / map_->info.linear_resolution);
 
     map_updated_ = msg;
 
-    region_ = UpdatedRegion(ox, oy, 0, w, h, map_->info.angle, msg->header.stamp);
-
     if (update_chain_entry)
     {
-      updateChainEntry(UpdatedRegion(ox, oy, 0, w, h, map_->info.angle, msg->header.stamp));
+      updateChainEntry(getOverlayRegion());
     }
     else
     {
@@ -399,16 +387,44 @@ protected:
       const UpdatedRegion& region) = 0;
   virtual int getRangeMax() const = 0;
 
+  // Region which can be affected by the latest overlay map of this layer
+  UpdatedRegion getOverlayRegion() const
+  {
+    if (!map_updated_)
+      return UpdatedRegion();
+
+    const nav_msgs::MapMetaData& info = map_updated_->info;
+    const int ox =
+        std::lround((info.origin.position.x - map_->info.origin.position.x) / map_->info.linear_resolution);
+    const int oy =
+        std::lround((info.origin.position.y - map_->info.origin.position.y) / map_->info.linear_resolution);
+    const int w = std::lround(info.width * info.resolution / map_->info.linear_resolution);
+    const int h = std::lround(info.height * info.resolution / map_->info.linear_resolution);
+
+    UpdatedRegion region(ox, oy, 0, w, h, map_->info.angle, map_updated_->header.stamp);
+    region.normalize(map_->info.width, map_->info.height);
+    if (region.width_ == 0 || region.height_ == 0)
+      return region;
+
+    // Costs around the obstacles are spread to the outside of the overlay map
+    region.expand(getRangeMax());
+    region.normalize(map_->info.width, map_->info.height);
+    return region;
+  }
   bool updateChainEntry(const UpdatedRegion& region, bool output = true)
   {
+    // Region currently affected by the overlay maps of this layer and its ancestors
+    UpdatedRegion region_overlay = region_parent_;
+    region_overlay.merge(getOverlayRegion());
+
+    region_ = UpdatedRegion();
     region_.merge(region);
+    region_.merge(region_overlay);
+    region_.merge(region_prev_);
     region_.normalize(map_->info.width, map_->info.height);
+    region_prev_ = region_overlay;
 
-    auto region_prev_now = region_;
-    region_prev_now.merge(region_prev_);
-    region_prev_ = region_;
-
-    region_prev_now.bitblt(map_overlay_, map_);
+    region_.bitblt(map_overlay_, map_);
     if (map_updated_)
     {
       if (map_->header.frame_id == map_updated_->header.frame_id)
@@ -426,6 +442,7 @@ protected:
 
     if (child_)
     {
+      child_->region_parent_ = region_overlay;
       return child_->updateChainEntry(region_, output);
     }
     return false;
-- 
2.43.0


From 93cd70dd951019f7f6d03503e883b651e915e63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:57 +0000
Subject: [PATCH 04/26] fix: do not skip obstacle expansion where the adjacent
 obstacle does not cover it

---
 .../costmap_3d_layer/footprint.h              | 33 ++++++++++++++++---
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h
index 5553935..d07cb7b 100644
--- a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h
+++ b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h
@@ -71,6 +71,7 @@ protected:
   };
   int range_max_;
   std::vector<bool> unknown_buf_;
+  std::vector<bool> template_monotone_;
 
 public:
   Costmap3dLayerFootprint()
@@ -191,9 +192,30 @@ public:
       if (footprint_radius_ == 0)
         cs_template_.e(0, 0, yaw) = 100;
     }
+
+    template_monotone_.resize(info.angle);
+    for (size_t yaw = 0; yaw < info.angle; yaw++)
+      template_monotone_[yaw] = isTemplateMonotone(yaw);
   }
 
 protected:
+  // Returns true if the template never gets higher by going away from the center along x or y axis
+  bool isTemplateMonotone(const int yaw) const
+  {
+    for (int y = -range_max_; y <= range_max_; y++)
+    {
+      for (int x = -range_max_; x <= range_max_; x++)
+      {
+        const char cost = cs_template_.e(x, y, yaw);
+        if ((x > 0 && cs_template_.e(x - 1, y, yaw) < cost) ||
+            (x < 0 && cs_template_.e(x + 1, y, yaw) < cost) ||
+            (y > 0 && cs_template_.e(x, y - 1, yaw) < cost) ||
+            (y < 0 && cs_template_.e(x, y + 1, yaw) < cost))
+          return false;
+      }
+    }
+    return true;
+  }
   bool updateChain(const bool output)
   {
     return false;
@@ -281,13 +303,14 @@ protected:
       const int gx = pos % msg->info.width;
       const int gy = pos / msg->info.width;
       const int8_t* const ptr = msg->data.data() + pos;
-      result.x_min = (gx == 0 || (*(ptr - 1) >= *ptr)) ? 0 : -range_max_;
-      result.x_max = (gx == static_cast<int>(msg->info.width) - 1 || (*(ptr + 1) >= *ptr)) ? 0 : range_max_;
-      result.y_min = (gy == 0 || (*(ptr - msg->info.width) >= *ptr)) ? 0 : -range_max_;
+      result.x_min = (gx > 0 && *(ptr - 1) >= *ptr) ? 0 : -range_max_;
+      result.x_max = (gx < static_cast<int>(msg->info.width) - 1 && *(ptr + 1) >= *ptr) ? 0 : range_max_;
+      result.y_min = (gy > 0 && *(ptr - msg->info.width) >= *ptr) ? 0 : -range_max_;
       result.y_max =
-          (gy == static_cast<int>(msg->info.height) - 1 || (*(ptr + msg->info.width) >= *ptr)) ? 0 : range_max_;
+          (gy < static_cast<int>(msg->info.height) - 1 && *(ptr + msg->info.width) >= *ptr) ? 0 : range_max_;
     };
-    const auto getRange = (msg->info.resolution == map->info.linear_resolution) ?
+    // Grid expansion toward an adjacent obstacle can be skipped only if the adjacent one always covers it.
+    const auto getRange = (msg->info.resolution == map->info.linear_resolution && template_monotone_[yaw]) ?
                               getMaskedRange :
                               std::function<void(const int, Rect&)>([](const int, Rect&) {});
 
-- 
2.43.0


From 45303a06240a5918b9fe9ac2452828c7088c7032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:57 +0000
Subject: [PATCH 05/26] fix: apply linear_spread_min_cost to the overlay in
 single layer mode

---
 costmap_cspace/src/costmap_3d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/costmap_cspace/src/costmap_3d.cpp b/costmap_cspace/src/costmap_3d.cpp
index 3b6a436..31c6c79 100644
--- a/costmap_cspace/src/costmap_3d.cpp
+++ b/costmap_cspace/src/costmap_3d.cpp
@@ -369,6 +369,7 @@ public:
       layer_xml["footprint"] = footprint_xml;
       layer_xml["linear_expand"] = linear_expand;
       layer_xml["linear_spread"] = linear_spread;
+      layer_xml["linear_spread_min_cost"] = linear_spread_min_cost;
 
       auto layer = costmap_->addLayer<costmap_cspace::Costmap3dLayerFootprint>(overlay_mode);
       layer->loadConfig(layer_xml);
-- 
2.43.0


From 958c3118d13dff648450a1137fa6eadda9759f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:24 +0000
Subject: [PATCH 06/26] fix: drop all expired clouds from PointcloudAccumulator

---
 .../include/costmap_cspace/pointcloud_accumulator.h   | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h b/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
index f7d5b41..cf24e52 100644
--- a/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
+++ b/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
@@ -74,15 +74,8 @@ public:
 
   void push(const Points& points)
   {
-    for (auto it = points_.begin(); it != points_.end(); ++it)
-    {
-      if (it->stamp_ + time_to_hold_ < points.stamp_)
-      {
-        it = points_.erase(it);
-        continue;
-      }
-      break;
-    }
+    points_.remove_if([this, &points](const Points& p)
+                      { return p.stamp_ + time_to_hold_ < points.stamp_; });
     points_.push_back(points);
   }
 
-- 
2.43.0


From 554b882807cb108f7997f605a623079674097502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:24 +0000
Subject: [PATCH 07/26] fix: check the height of every point in
 laserscan_to_map

---
 costmap_cspace/src/laserscan_to_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/costmap_cspace/src/laserscan_to_map.cpp b/costmap_cspace/src/laserscan_to_map.cpp
index ed8f77e..b033d9a 100644
--- a/costmap_cspace/src/laserscan_to_map.cpp
+++ b/costmap_cspace/src/laserscan_to_map.cpp
@@ -160,7 +160,7 @@ private:
       auto itr_x = sensor_msgs::PointCloud2ConstIterator<float>(pc, "x");
       auto itr_y = sensor_msgs::PointCloud2ConstIterator<float>(pc, "y");
       auto itr_z = sensor_msgs::PointCloud2ConstIterator<float>(pc, "z");
-      for (; itr_x != itr_x.end(); ++itr_x, ++itr_y)
+      for (; itr_x != itr_x.end(); ++itr_x, ++itr_y, ++itr_z)
       {
         if (*itr_z - robot_z < z_min_ || z_max_ < *itr_z - robot_z)
           continue;
-- 
2.43.0


From 1906eda834507c74076755b31a0e5a4b1174ab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:24 +0000
Subject: [PATCH 08/26] fix: ignore laser scans without transform in
 laserscan_to_map

---
 costmap_cspace/src/laserscan_to_map.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/costmap_cspace/src/laserscan_to_map.cpp b/costmap_cspace/src/laserscan_to_map.cpp
index b033d9a..df1c9b7 100644
--- a/costmap_cspace/src/laserscan_to_map.cpp
+++ b/costmap_cspace/src/laserscan_to_map.cpp
@@ -121,6 +121,7 @@ private:
     catch (tf2::TransformException& e)
     {
       ROS_WARN("%s", e.what());
+      return;
     }
     accum_.push(costmap_cspace::PointcloudAccumurator<sensor_msgs::PointCloud2>::Points(
         cloud_global, cloud_global.header.stamp));
-- 
2.43.0


From a33ccb7443b402aaee1e3348e46b8e25641ff882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:42 +0000
Subject: [PATCH 09/26] fix: do not map points next to the local map into its
 first row and column

---
 costmap_cspace/src/laserscan_to_map.cpp   | 7 ++++---
 costmap_cspace/src/pointcloud2_to_map.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/costmap_cspace/src/laserscan_to_map.cpp b/costmap_cspace/src/laserscan_to_map.cpp
index df1c9b7..54f1419 100644
--- a/costmap_cspace/src/laserscan_to_map.cpp
+++ b/costmap_cspace/src/laserscan_to_map.cpp
@@ -36,6 +36,7 @@
 #include <tf2_ros/transform_listener.h>
 #include <tf2_sensor_msgs/tf2_sensor_msgs.h>
 
+#include <cmath>
 #include <limits>
 #include <string>
 
@@ -165,11 +166,11 @@ private:
       {
         if (*itr_z - robot_z < z_min_ || z_max_ < *itr_z - robot_z)
           continue;
-        unsigned int x = int(
+        const int x = std::floor(
             (*itr_x - map.info.origin.position.x) / map.info.resolution);
-        unsigned int y = int(
+        const int y = std::floor(
             (*itr_y - map.info.origin.position.y) / map.info.resolution);
-        if (x >= map.info.width || y >= map.info.height)
+        if (x < 0 || y < 0 || x >= static_cast<int>(map.info.width) || y >= static_cast<int>(map.info.height))
           continue;
         map.data[x + y * map.info.width] = 100;
       }
diff --git a/costmap_cspace/src/pointcloud2_to_map.cpp b/costmap_cspace/src/pointcloud2_to_map.cpp
index 2d4ec5c..887fb3a 100644
--- a/costmap_cspace/src/pointcloud2_to_map.cpp
+++ b/costmap_cspace/src/pointcloud2_to_map.cpp
@@ -35,6 +35,7 @@
 #include <nav_msgs/OccupancyGrid.h>
 #include <sensor_msgs/PointCloud2.h>
 
+#include <cmath>
 #include <string>
 #include <vector>
 
@@ -174,11 +175,11 @@ private:
         {
           if (*iter_z - robot_z < z_min_ || z_max_ < *iter_z - robot_z)
             continue;
-          unsigned int x = int(
+          const int x = std::floor(
               (*iter_x - map_.info.origin.position.x) / map_.info.resolution);
-          unsigned int y = int(
+          const int y = std::floor(
               (*iter_y - map_.info.origin.position.y) / map_.info.resolution);
-          if (x >= map_.info.width || y >= map_.info.height)
+          if (x < 0 || y < 0 || x >= static_cast<int>(map_.info.width) || y >= static_cast<int>(map_.info.height))
             continue;
           map_.data[x + y * map_.info.width] = 100;
         }
-- 
2.43.0


From 94939bb9a23a59813ead4e96de622395ed4e4d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:45 +0000
Subject: [PATCH 10/26] fix: safety_limiter: do not transform the accumulated
 obstacle points twice

predict() overwrote the accumulated cloud, kept in the fixed frame, with its
copy in the robot frame. A second prediction without a new cloud transformed
the points again and looked for obstacles at wrong places.
---
 safety_limiter/src/safety_limiter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/safety_limiter/src/safety_limiter.cpp b/safety_limiter/src/safety_limiter.cpp
index ea1307e..ed4ffd2 100644
--- a/safety_limiter/src/safety_limiter.cpp
+++ b/safety_limiter/src/safety_limiter.cpp
@@ -391,11 +391,12 @@ protected:
             fixed_to_base.transform.rotation.x,
             fixed_to_base.transform.rotation.y,
             fixed_to_base.transform.rotation.z);
-    pcl::transformPointCloud(*cloud_accum_, *cloud_accum_, fixed_to_base_eigen);
+    pcl::PointCloud<pcl::PointXYZ>::Ptr cloud_base(new pcl::PointCloud<pcl::PointXYZ>);
+    pcl::transformPointCloud(*cloud_accum_, *cloud_base, fixed_to_base_eigen);
 
     pcl::PointCloud<pcl::PointXYZ>::Ptr pc(new pcl::PointCloud<pcl::PointXYZ>);
     pcl::VoxelGrid<pcl::PointXYZ> ds;
-    ds.setInputCloud(cloud_accum_);
+    ds.setInputCloud(cloud_base);
     ds.setLeafSize(downsample_grid_, downsample_grid_, downsample_grid_);
     ds.filter(*pc);
 
-- 
2.43.0


From cf1578371fc5df82fcebe6ee1c472eb28dafdcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:25 +0000
Subject: [PATCH 11/26] fix: select_map: publish the selected floor of a newly
 received map array

The map and the height were updated only when the floor number changed, so
a new array left the map of the old array published.
---
 map_organizer/src/select_map.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/map_organizer/src/select_map.cpp b/map_organizer/src/select_map.cpp
index eb1be48..97363d7 100644
--- a/map_organizer/src/select_map.cpp
+++ b/map_organizer/src/select_map.cpp
@@ -41,6 +41,7 @@
 map_organizer_msgs::OccupancyGridArray maps;
 std::vector<nav_msgs::MapMetaData> orig_mapinfos;
 int floor_cur = 0;
+bool maps_updated = false;
 
 void cbMaps(const map_organizer_msgs::OccupancyGridArray::Ptr& msg)
 {
@@ -52,6 +53,7 @@ void cbMaps(const map_organizer_msgs::OccupancyGridArray::Ptr& msg)
     orig_mapinfos.push_back(map.info);
     map.info.origin.position.z = 0.0;
   }
+  maps_updated = true;
 }
 void cbFloor(const std_msgs::Int32::Ptr& msg)
 {
@@ -91,7 +93,7 @@ int main(int argc, char** argv)
     if (maps.maps.size() == 0)
       continue;
 
-    if (floor_cur != floor_prev)
+    if (floor_cur != floor_prev || maps_updated)
     {
       if (floor_cur >= 0 && floor_cur < static_cast<int>(maps.maps.size()))
       {
@@ -103,6 +105,7 @@ int main(int argc, char** argv)
         ROS_INFO("Floor out of range");
       }
       floor_prev = floor_cur;
+      maps_updated = false;
     }
     trans.header.stamp = ros::Time::now() + ros::Duration(0.15);
     tfb.sendTransform(trans);
-- 
2.43.0


From 0354fef1df0434c9ba8137ca055c3e80e0650fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:11 +0000
Subject: [PATCH 12/26] fix: largemap_to_map: align the local map origin with
 the copied cells

---
 costmap_cspace/src/largemap_to_map.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/costmap_cspace/src/largemap_to_map.cpp b/costmap_cspace/src/largemap_to_map.cpp
index 2df8846..6040355 100644
--- a/costmap_cspace/src/largemap_to_map.cpp
+++ b/costmap_cspace/src/largemap_to_map.cpp
@@ -155,6 +155,9 @@ private:
         std::lround((map.info.origin.position.x - large_map_->info.origin.position.x) / map.info.resolution);
     const int gy =
         std::lround((map.info.origin.position.y - large_map_->info.origin.position.y) / map.info.resolution);
+    // Align the origin with the copied cells of the large map
+    map.info.origin.position.x = large_map_->info.origin.position.x + gx * map.info.resolution;
+    map.info.origin.position.y = large_map_->info.origin.position.y + gy * map.info.resolution;
     const float half_width = width_ / 2.0;
 
     for (int y = gy; y < gy + width_; ++y)
-- 
2.43.0


From 1459fd30cb2f434f2749f80e28acad3ddf6dec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 13/26] fix: trajectory_tracker: apply the linear acceleration
 limit once when limiting the speed by the angular speed

---
 trajectory_tracker/src/trajectory_tracker.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index 4e26ee8..1cfa795 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -464,6 +464,7 @@ void TrackerNode::control(
       }
       else
       {
+        const trajectory_tracker::VelAccLimitter v_lim_prev = v_lim_;
         v_lim_.set(
             trajectory_tracker::timeOptimalControl(tracking_result.signed_local_distance, acc_toc_[0]),
             tracking_result.target_linear_vel, acc_[0], dt);
@@ -472,8 +473,11 @@ void TrackerNode::control(
 
         if (limit_vel_by_avel_ && std::abs(wref) > vel_[1])
         {
+          const double v_sign = std::copysign(1.0, v_lim_.get());
+          // Start over from the previous command to apply the acceleration limit only once
+          v_lim_ = v_lim_prev;
           v_lim_.set(
-              std::copysign(1.0, v_lim_.get()) * std::abs(vel_[1] / tracking_result.tracking_point_curv),
+              v_sign * std::abs(vel_[1] / tracking_result.tracking_point_curv),
               tracking_result.target_linear_vel, acc_[0], dt);
           wref = std::copysign(1.0, wref) * vel_[1];
         }
-- 
2.43.0


From a3e8f0820a7da96ec3ac14d4508e2606b7b5766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:06 +0000
Subject: [PATCH 14/26] fix: planner_3d: report DONE after the goal was cleared
 or rejected

---
 planner_cspace/src/planner_3d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 8c83251..e62c81a 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -476,6 +476,7 @@ protected:
       if (!createCostEstimCache())
       {
         has_goal_ = false;
+        status_.status = planner_cspace_msgs::PlannerStatus::DONE;
         return false;
       }
       status_.status = planner_cspace_msgs::PlannerStatus::DOING;
@@ -486,6 +487,7 @@ protected:
     else
     {
       has_goal_ = false;
+      status_.status = planner_cspace_msgs::PlannerStatus::DONE;
       if (act_->isActive())
         act_->setSucceeded(move_base_msgs::MoveBaseResult(), "Goal cleared.");
       if (act_tolerant_->isActive())
-- 
2.43.0


From 10e852dc462d2ec31a14bda648bef1b460790e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:06 +0000
Subject: [PATCH 15/26] fix: planner_3d: search the temporary escape goal
 around the robot

---
 planner_cspace/src/planner_3d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index e62c81a..e4f8eee 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -2116,7 +2116,7 @@ protected:
     if (!enable_crowd_mode_)
     {
       // Just find available (not occupied) pose
-      Astar::Vec te;
+      Astar::Vec te = start_grid;
       if (!searchAvailablePos(cm_, te, esc_range_, esc_angle_, relocation_acceptable_cost_, esc_range_min_))
       {
         ROS_WARN("No valid temporary escape goal");
-- 
2.43.0


From abf8a7a68103c25ea35da9aba3f54e524eecfead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:06 +0000
Subject: [PATCH 16/26] fix: planner_3d: let unusable costmap updates trigger
 the costmap watchdog

---
 planner_cspace/src/planner_3d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index e4f8eee..005167b 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -975,7 +975,7 @@ protected:
       no_map_update_timer_.stop();
       updateStart();
       applyCostmapUpdate(msg);
-      planPath(last_costmap_);
+      planPath(ros::Time::now());
       if (costmap_watchdog_ > ros::Duration(0))
       {
         no_map_update_timer_ =
-- 
2.43.0


From 39beb2b8b24466e66f73e13038747013fe949c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:36 +0000
Subject: [PATCH 17/26] fix: planner_3d: reject costmap updates exceeding the
 map in any direction

---
 planner_cspace/src/planner_3d.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 005167b..778329c 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -786,9 +786,9 @@ protected:
     const int map_update_y_min = static_cast<int>(msg->y);
     const int map_update_y_max = std::max(static_cast<int>(msg->y + msg->height) - 1, 0);
 
-    if (static_cast<size_t>(map_update_x_max) >= map_info_.width ||
-        static_cast<size_t>(map_update_y_max) >= map_info_.height ||
-        msg->angle > map_info_.angle)
+    if (static_cast<size_t>(msg->x) + msg->width > map_info_.width ||
+        static_cast<size_t>(msg->y) + msg->height > map_info_.height ||
+        static_cast<size_t>(msg->yaw) + msg->angle > map_info_.angle)
     {
       ROS_WARN(
           "Map update out of range (update range: %dx%dx%d, map range: %dx%dx%d)",
-- 
2.43.0


From c627abe02e89f0075219a629d87e415f57df128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:36 +0000
Subject: [PATCH 18/26] fix: planner_3d: don't look up the cost of a goal
 outside the map on fast costmap updates

---
 planner_cspace/src/planner_3d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 778329c..78aa3c9 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -926,7 +926,7 @@ protected:
 
     const Astar::Vec e = metric2Grid(goal_.pose);
 
-    if (cm_[e] == 100)
+    if (!cm_.validate(e, range_) || cm_[e] == 100)
     {
       createCostEstimCache(false);
       return;
-- 
2.43.0


From 87302e9b84698efe060c3c13514083fb43161289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:53 +0000
Subject: [PATCH 19/26] fix: planner_3d: rebuild the distance map after the
 parameters were changed

---
 planner_cspace/src/planner_3d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 78aa3c9..6141ad8 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -1473,6 +1473,7 @@ public:
               .resolution = map_info_.linear_resolution,
           };
       cost_estim_cache_.init(model_, dmp);
+      cost_estim_cache_created_ = false;
       if (enable_crowd_mode_)
       {
         cost_estim_cache_static_.init(model_, dmp);
-- 
2.43.0


From 480e15aa3b1aff718506a2ebdbf588184a794d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:03 +0000
Subject: [PATCH 20/26] fix: planner_3d: discard the distance map when the map
 or the goal changes while the robot pose is unavailable

---
 planner_cspace/src/planner_3d.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 6141ad8..3aa67de 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -561,6 +561,9 @@ protected:
     if (!has_goal_)
       return true;
 
+    cost_estim_cache_created_ = false;
+    is_start_occupied_ = false;
+
     if (!has_map_ || !has_start_)
     {
       ROS_ERROR("Goal received, however map/goal/start are not ready. (%d/%d/%d)",
@@ -568,9 +571,6 @@ protected:
       return true;
     }
 
-    cost_estim_cache_created_ = false;
-    is_start_occupied_ = false;
-
     Astar::Vec s = metric2Grid(start_.pose);
     Astar::Vec e = metric2Grid(goal_raw_.pose);
     if (goal_changed)
-- 
2.43.0


From 87f65312137ced5a79c746b04503da5f1e35e8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:54 +0000
Subject: [PATCH 21/26] fix: grid_astar: don't convert an unreachable start's
 estimate to an integer

---
 planner_cspace/include/planner_cspace/grid_astar.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planner_cspace/include/planner_cspace/grid_astar.h b/planner_cspace/include/planner_cspace/grid_astar.h
index 4536a0a..9c32ee5 100644
--- a/planner_cspace/include/planner_cspace/grid_astar.h
+++ b/planner_cspace/include/planner_cspace/grid_astar.h
@@ -205,7 +205,7 @@ protected:
 
     std::vector<VecWithCost> ss_normalized;
     Vec better;
-    int cost_estim_min = std::numeric_limits<int>::max();
+    float cost_estim_min = std::numeric_limits<float>::max();
     for (const VecWithCost& st : sts)
     {
       if (st.v_ == en)
@@ -216,9 +216,9 @@ protected:
       ss_normalized.emplace_back(s, st.c_);
       g[s] = st.c_;
 
-      const int cost_estim = model->costEstim(s, e);
+      const float cost_estim = model->costEstim(s, e);
       open_.emplace(cost_estim + st.c_, st.c_, s);
-      if (cost_estim_min > cost_estim)
+      if (ss_normalized.size() == 1 || cost_estim_min > cost_estim)
       {
         cost_estim_min = cost_estim;
         better = s;
-- 
2.43.0


From 7995beafa183cab7c5324697062599e2264378c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:12 +0000
Subject: [PATCH 22/26] fix: clear the interactive markers when
 trajectory_server fails to load a file

The markers of the previously loaded path were left alive while the path
was cleared, and their feedback accessed poses which don't exist.
---
 trajectory_tracker/src/trajectory_server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajectory_tracker/src/trajectory_server.cpp b/trajectory_tracker/src/trajectory_server.cpp
index c3c2632..507f8ad 100644
--- a/trajectory_tracker/src/trajectory_server.cpp
+++ b/trajectory_tracker/src/trajectory_server.cpp
@@ -271,6 +271,7 @@ bool ServerNode::change(trajectory_tracker_msgs::ChangePath::Request& req,
     req_path_.filename = "";
     path_.poses.clear();
     path_.header.frame_id = "map";
+    updateIM();
   }
   return true;
 }
-- 
2.43.0


From f6a2f84fc0be40a39cf15ef5369a12498c48179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:12 +0000
Subject: [PATCH 23/26] fix: don't access the first pose of an empty path in
 trajectory_server

A stored path without poses was smoothed starting from poses[0].
---
 trajectory_tracker/src/trajectory_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajectory_tracker/src/trajectory_server.cpp b/trajectory_tracker/src/trajectory_server.cpp
index 507f8ad..1ff1f88 100644
--- a/trajectory_tracker/src/trajectory_server.cpp
+++ b/trajectory_tracker/src/trajectory_server.cpp
@@ -244,7 +244,7 @@ bool ServerNode::change(trajectory_tracker_msgs::ChangePath::Request& req,
     ros::serialization::IStream stream(buffer_.get(), serial_size_);
     ros::serialization::deserialize(stream, path_);
     path_.header.stamp = ros::Time::now();
-    if (filter_step_ > 0)
+    if (filter_step_ > 0 && !path_.poses.empty())
     {
       std::cout << filter_step_ << std::endl;
       lpf_[0] = new trajectory_tracker::Filter(
-- 
2.43.0


From b23791bce545b1e4284a2f3b6c10bac971e43e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:48 +0000
Subject: [PATCH 24/26] fix: construct the node in pose_transform

'PoseTransformNode ptn();' declared a function, so the node never
subscribed, advertised or transformed anything.
---
 map_organizer/src/pose_transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/map_organizer/src/pose_transform.cpp b/map_organizer/src/pose_transform.cpp
index b80ca92..a702487 100644
--- a/map_organizer/src/pose_transform.cpp
+++ b/map_organizer/src/pose_transform.cpp
@@ -94,7 +94,7 @@ int main(int argc, char** argv)
 {
   ros::init(argc, argv, "pose_transform");
 
-  PoseTransformNode ptn();
+  PoseTransformNode ptn;
   ros::spin();
 
   return 0;
-- 
2.43.0


From 7b8648364bc4e6383757a3caab21f281d4d3bf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:20 +0000
Subject: [PATCH 25/26] fix: track_odometry: do not overshoot the slip estimate
 after a pause

Predicting over an interval longer than 1/predict_filter_tc flipped the
sign of the slip estimate and amplified it.
---
 track_odometry/src/track_odometry.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/track_odometry/src/track_odometry.cpp b/track_odometry/src/track_odometry.cpp
index 15e85b9..f26282c 100644
--- a/track_odometry/src/track_odometry.cpp
+++ b/track_odometry/src/track_odometry.cpp
@@ -27,6 +27,7 @@
  * POSSIBILITY OF SUCH DAMAGE.
  */
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <memory>
@@ -232,7 +233,7 @@ private:
       if (w_imu * w_odom < 0 && !negative_slip_)
         w_imu = w_odom;
 
-      slip_.predict(-slip_.x_ * dt * predict_filter_tc_, dt * sigma_predict_);
+      slip_.predict(-slip_.x_ * std::min(1.0, dt * predict_filter_tc_), dt * sigma_predict_);
       if (std::abs(w_odom) > sigma_odom_ * 3)
       {
         // non-kf mode: calculate slip_ratio if angular vel < 3*sigma
-- 
2.43.0


From 6001c2e0b5aca584a7ed172cb6cea69ec879c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:20 +0000
Subject: [PATCH 26/26] fix: track_odometry: keep the height filter stable over
 message gaps

The estimated height diverged when the interval of the odometry messages
exceeded twice z_filter_timeconst.
---
 track_odometry/src/track_odometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/track_odometry/src/track_odometry.cpp b/track_odometry/src/track_odometry.cpp
index f26282c..094767d 100644
--- a/track_odometry/src/track_odometry.cpp
+++ b/track_odometry/src/track_odometry.cpp
@@ -273,7 +273,7 @@ private:
 
       odom.pose.pose.position = toPoint(toEigen(odom_prev_.pose.pose.position) + v);
       if (z_filter_timeconst_ > 0)
-        odom.pose.pose.position.z *= 1.0 - (dt / z_filter_timeconst_);
+        odom.pose.pose.position.z *= std::max(0.0, 1.0 - (dt / z_filter_timeconst_));
 
       odom.child_frame_id = base_link_id_;
       pub_odom_.publish(odom);
-- 
2.43.0

