From 2261a597110f775244b3115047acdbca256342ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 01/20] fix: give cells whose points coincide a finite score

Cell::compute divided by a zero determinant when all points of a cell
coincide, so that scores were NaN; variances that rounding made slightly
negative gave scores above 1.
---
 src/ndt_model.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ndt_model.cpp b/src/ndt_model.cpp
index e1f9b7c..5ec74c5 100644
--- a/src/ndt_model.cpp
+++ b/src/ndt_model.cpp
@@ -30,6 +30,7 @@
 #include <Eigen/Eigen>
 #include <Eigen/Eigenvalues>
 
+#include <algorithm>
 #include <cmath>
 #include <ndt_2d/conversions.hpp>
 #include <ndt_2d/ndt_model.hpp>
@@ -37,6 +38,9 @@
 namespace ndt_2d
 {
 
+// Variance (m^2) below which the points of a cell are considered to be the same point
+constexpr double MIN_VARIANCE = 1e-12;
+
 Cell::Cell()
 : valid(false),
   n(0),
@@ -85,7 +89,12 @@ void Cell::compute()
   Eigen::Vector2d eigenvalues = solver.eigenvalues().real();
   double small = eigenvalues(0), large = eigenvalues(1);
   if (small > large) std::swap(small, large);
-  if (small < 0.001 * large)
+  if (large < MIN_VARIANCE)
+  {
+    // Points coincide (any spread left is rounding), there is nothing to invert
+    information = Eigen::Matrix2d::Identity() / MIN_VARIANCE;
+  }
+  else if (small < 0.001 * large)
   {
     // Special case
     double determinant = (0.001 * large) * large;
@@ -112,7 +121,8 @@ double Cell::score(const Eigen::Vector2d & point)
 
   const auto q = point - mean;
   const double exponent = -0.5 * q.transpose() * information * q;
-  return std::exp(exponent);
+  // Rounding can leave a slightly negative variance along one axis
+  return std::exp(std::min(exponent, 0.0));
 }
 
 NDT::NDT(double cell_size, double size_x, double size_y, double origin_x, double origin_y)
-- 
2.43.0


From 4d7276682115b827268dc43b99b9f723e38b0617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:38 +0000
Subject: [PATCH 02/20] fix: ignore points with NaN or huge coordinates in the
 NDT grid

The conversion of such coordinates to an unsigned index is undefined, NaN
ended up in the first cell.
---
 src/ndt_model.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/ndt_model.cpp b/src/ndt_model.cpp
index 5ec74c5..dc72032 100644
--- a/src/ndt_model.cpp
+++ b/src/ndt_model.cpp
@@ -212,19 +212,15 @@ double NDT::likelihood(const ScanPtr & scan)
 
 int NDT::getIndex(double x, double y)
 {
-  if (x < origin_x_ || y < origin_y_)
+  // Compare before converting: the coordinates may be NaN or beyond any integer
+  double grid_x = (x - origin_x_) / cell_size_;
+  double grid_y = (y - origin_y_) / cell_size_;
+  if (!(grid_x >= 0 && grid_x < size_x_ && grid_y >= 0 && grid_y < size_y_))
   {
     return -1;
   }
 
-  unsigned int grid_x = (x - origin_x_) / cell_size_;
-  unsigned int grid_y = (y - origin_y_) / cell_size_;
-  if (grid_x >= size_x_ || grid_y >= size_y_)
-  {
-    return -1;
-  }
-
-  return (grid_y * size_x_) + grid_x;
+  return static_cast<int>(static_cast<size_t>(grid_y) * size_x_ + static_cast<size_t>(grid_x));
 }
 
 }  // namespace ndt_2d
-- 
2.43.0


From 9aec5daa28c22a4cae82c0dc30015bd40583d30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:39 +0000
Subject: [PATCH 03/20] fix: weight graph constraints by their information
 matrix

The residual has to be multiplied with the upper Cholesky factor; the lower
one gives a different quadratic form when the matrix is not diagonal.
---
 src/ceres_solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index f819d77..5e18b07 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -129,7 +129,8 @@ ceres::ResidualBlockId CeresSolver::addConstraint(const ConstraintPtr & constrai
   auto begin_node = nodes_.find(begin->getId());
   auto end_node = nodes_.find(end->getId());
 
-  const Eigen::Matrix3d sqrt_information = constraint->information.llt().matrixL();
+  // The squared norm of U * error is error^T * U^T * U * error = error^T * information * error
+  const Eigen::Matrix3d sqrt_information = constraint->information.llt().matrixU();
 
   ceres::CostFunction * cost_function =
     PoseGraph2dErrorTerm::Create(constraint->transform(0),
-- 
2.43.0


From 01ce24439625a34c627979a0f743c93cc67aa546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:44 +0000
Subject: [PATCH 04/20] fix: allow optimizing a graph whose first scan has no
 constraint

Ceres aborts when a parameter that it does not know is made constant.
---
 src/ceres_solver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index 5e18b07..81c4a21 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -87,6 +87,11 @@ bool CeresSolver::optimize(const std::vector<ConstraintPtr> & constraints,
 
   // Make first node fixed
   auto first_node_ = nodes_.find(scans[0]->getId());
+  for (size_t i = 0; i < 3; ++i)
+  {
+    // It may not be part of any constraint, only known parameters can be fixed
+    problem_->AddParameterBlock(&first_node_->second(i), 1);
+  }
   problem_->SetParameterBlockConstant(&first_node_->second(0));
   problem_->SetParameterBlockConstant(&first_node_->second(1));
   problem_->SetParameterBlockConstant(&first_node_->second(2));
-- 
2.43.0


From 8e8b46bb008602e594a9d238e42d69d28c30306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:21 +0000
Subject: [PATCH 05/20] fix: search the graph within the given distance, not
 its square root

---
 src/graph.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/graph.cpp b/src/graph.cpp
index 96b724f..3cf78d1 100644
--- a/src/graph.cpp
+++ b/src/graph.cpp
@@ -26,6 +26,7 @@
  * THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 
+#include <algorithm>
 #include <iostream>
 #include <ndt_2d/graph.hpp>
 #include <ndt_2d/msg/scan.hpp>
@@ -168,7 +169,8 @@ std::vector<size_t> Graph::findNearest(const ScanPtr & scan, double dist, int li
 {
   // Build a KD-tree from scratch each time - no sense with bookkeeping to use dynamic
   // tree, since it rebuilds index from scratch: https://github.com/jlblancoc/nanoflann/issues/90
-  size_t limit = (limit_scan_index > 0) ? limit_scan_index : scans.size();
+  size_t limit = scans.size();
+  if (limit_scan_index > 0) limit = std::min<size_t>(limit, limit_scan_index);
   GraphAdapter adapter(this, limit, use_barycenter_);
   kd_tree_t tree(2 /* dimension */, adapter, 5 /* leaf size */);
   tree.buildIndex();
@@ -178,7 +180,8 @@ std::vector<size_t> Graph::findNearest(const ScanPtr & scan, double dist, int li
   const double query[2] = {pose.x, pose.y};
   std::vector<std::pair<unsigned, double>> matches;
   nanoflann::SearchParams params;
-  tree.radiusSearch(query, dist, matches, params);
+  // The metric is a squared distance, and so is the radius of the search
+  tree.radiusSearch(query, dist * dist, matches, params);
 
   std::vector<size_t> indicies;
   for (size_t i = 0; i < matches.size(); ++i)
-- 
2.43.0


From bbfd7055f5f0bc6e2699817ef38493283f282dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:05 +0000
Subject: [PATCH 06/20] fix: compute the bounds of the occupancy grid from the
 current scan poses

---
 include/ndt_2d/occupancy_grid.hpp |  3 +--
 src/occupancy_grid.cpp            | 23 ++++++++++++-----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/ndt_2d/occupancy_grid.hpp b/include/ndt_2d/occupancy_grid.hpp
index 1439e61..cd80393 100644
--- a/include/ndt_2d/occupancy_grid.hpp
+++ b/include/ndt_2d/occupancy_grid.hpp
@@ -60,9 +60,8 @@ private:
 
   double resolution_;
   double occ_thresh_;
-  // Bounds are recalculated when scan vector increases in size
+  // Bounds are recalculated for every message
   double min_x_, max_x_, min_y_, max_y_;
-  size_t num_scans_;
 };
 
 typedef std::shared_ptr<OccupancyGrid> OccupancyGridPtr;
diff --git a/src/occupancy_grid.cpp b/src/occupancy_grid.cpp
index d9257e6..183259b 100644
--- a/src/occupancy_grid.cpp
+++ b/src/occupancy_grid.cpp
@@ -39,19 +39,15 @@ OccupancyGrid::OccupancyGrid(const double resolution, const double occ_thresh)
   min_x_(0),
   max_x_(0),
   min_y_(0),
-  max_y_(0),
-  num_scans_(0)
+  max_y_(0)
 {
 }
 
 void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
                            nav_msgs::msg::OccupancyGrid & grid)
 {
-  // Update size of the occupancy grid, if needed
-  if (scans.size() != num_scans_)
-  {
-    updateBounds(scans);
-  }
+  // Update size of the occupancy grid - scans may have been moved or replaced since last time
+  updateBounds(scans);
 
   // Pad the map just a bit
   double pad = 5 * resolution_;
@@ -153,17 +149,22 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
 
 void OccupancyGrid::updateBounds(std::vector<ndt_2d::ScanPtr>& scans)
 {
-  size_t start_idx = num_scans_;
-  num_scans_ = scans.size();
+  min_x_ = max_x_ = min_y_ = max_y_ = 0.0;
 
-  // Iterate through new scans
-  for (size_t i = start_idx; i < num_scans_; ++i)
+  // Iterate through scans
+  for (size_t i = 0; i < scans.size(); ++i)
   {
     double x = scans[i]->getPose().x;
     double y = scans[i]->getPose().y;
     double cos_th = cos(scans[i]->getPose().theta);
     double sin_th = sin(scans[i]->getPose().theta);
 
+    // Raytracing starts at the pose
+    min_x_ = std::min(x, min_x_);
+    max_x_ = std::max(x, max_x_);
+    min_y_ = std::min(y, min_y_);
+    max_y_ = std::max(y, max_y_);
+
     // Iterate through points in the scan
     for (auto & point : scans[i]->getPoints())
     {
-- 
2.43.0


From 8421fe11292d18327aee7c281d024d463a92b937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:05 +0000
Subject: [PATCH 07/20] fix: trace rays up to the cell of the measured point

---
 src/occupancy_grid.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/occupancy_grid.cpp b/src/occupancy_grid.cpp
index 183259b..1674a54 100644
--- a/src/occupancy_grid.cpp
+++ b/src/occupancy_grid.cpp
@@ -104,23 +104,15 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
           break;
         }
         ++empty[index];
-        if (2 * error >= dy)
+        // Both tests need the error of the current cell
+        const int error2 = 2 * error;
+        if (error2 >= dy)
         {
-          if (x == end_x)
-          {
-            ++hit[index];
-            break;
-          }
           error = error + dy;
           x += sx;
         }
-        if (2 * error <= dx)
+        if (error2 <= dx)
         {
-          if (y == end_y)
-          {
-            ++hit[index];
-            break;
-          }
           error = error + dx;
           y += sy;
         }
-- 
2.43.0


From 69e9e567516e93d0a4896ea2d332a566f5c4d49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:04 +0000
Subject: [PATCH 08/20] fix: compute the particle statistics from the current
 particles only, also when all weights are zero

---
 src/particle_filter.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index eefcdc7..27bc254 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -168,6 +168,12 @@ void ParticleFilter::updateStatistics()
   {
     sum_weight += w;
   }
+  if (sum_weight == 0.0)
+  {
+    // The measurement tells nothing about any particle
+    weights_.assign(weights_.size(), 1.0);
+    sum_weight = weights_.size();
+  }
   for (auto & w : weights_)
   {
     w /= sum_weight;
@@ -210,11 +216,13 @@ void ParticleFilter::updateStatistics()
   }
 
   // Compute covariance for theta
+  double cov_theta = 0.0;
   for (size_t i = 0; i < particles_.size(); ++i)
   {
     double d = angles::shortest_angular_distance(particles_[i](2), mean_(2));
-    cov_(2, 2) += weights_[i] * d * d;
+    cov_theta += weights_[i] * d * d;
   }
+  cov_(2, 2) = cov_theta;
 }
 
 }  // namespace ndt_2d
-- 
2.43.0


From 65b5605da598d610c4d50d101c4066cf510780d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:04 +0000
Subject: [PATCH 09/20] fix: let resampled particles count equally

---
 src/particle_filter.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index 27bc254..d09ffd0 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -99,9 +99,6 @@ void ParticleFilter::resample(const double kld_err, const double kld_z)
   std::vector<Particle> resampled;
   resampled.reserve(max_particles_);
 
-  std::vector<double> resampled_weights;
-  resampled_weights.reserve(max_particles_);
-
   // This will be the crazy equation from Probabilistic Robotics
   size_t Mx = max_particles_;
 
@@ -111,7 +108,6 @@ void ParticleFilter::resample(const double kld_err, const double kld_z)
     size_t p = d(gen_);
     kd_tree_.insert(particles_[p], weights_[p]);
     resampled.push_back(particles_[p]);
-    resampled_weights.push_back(weights_[p]);
 
     // Recompute crazy equation
     size_t k = kd_tree_.getLeafCount();
@@ -131,7 +127,8 @@ void ParticleFilter::resample(const double kld_err, const double kld_z)
   }
 
   particles_ = resampled;
-  weights_ = resampled_weights;
+  // Each particle was drawn in proportion to its weight
+  weights_.assign(particles_.size(), 1.0 / particles_.size());
 
   updateStatistics();
 }
-- 
2.43.0


From eb3df9fcafd64a2f06fae0684fbdcdc6b7a8be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 10/20] fix: bound the NDT map by the given scans, also at
 negative poses or without scans

---
 src/scan_matcher_ndt.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index daa1413..03da0df 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -49,11 +49,18 @@ void ScanMatcherNDT::initialize(const std::string & name, rclcpp::Node * node, d
 void ScanMatcherNDT::addScans(const std::vector<ScanPtr>::const_iterator& begin,
                               const std::vector<ScanPtr>::const_iterator& end)
 {
+  if (begin == end)
+  {
+    // No scans, no map
+    ndt_.reset();
+    return;
+  }
+
   // Compute bounding box required
   double min_x_ = std::numeric_limits<double>::max();
-  double max_x_ = std::numeric_limits<double>::min();
+  double max_x_ = std::numeric_limits<double>::lowest();
   double min_y_ = std::numeric_limits<double>::max();
-  double max_y_ = std::numeric_limits<double>::min();
+  double max_y_ = std::numeric_limits<double>::lowest();
   for (auto scan = begin; scan != end; ++scan)
   {
     Pose2d pose = (*scan)->getPose();
-- 
2.43.0


From 301c93c9dbe16d99d5e191478bb959eca5b3c3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 11/20] fix: compute the match covariance as the spread around
 the mean offset

---
 src/scan_matcher_ndt.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index 03da0df..fb04656 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -83,6 +83,10 @@ void ScanMatcherNDT::addScans(const std::vector<ScanPtr>::const_iterator& begin,
 double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
                                  Eigen::Matrix3d & covariance) const
 {
+  // As long as nothing overlaps the map, all that is known is the size of the search window
+  covariance = Eigen::Vector3d(linear_size_ * linear_size_, linear_size_ * linear_size_,
+                               angular_size_ * angular_size_).asDiagonal();
+
   // Scans must be added first
   if (!ndt_) return 0.0;
 
@@ -150,7 +154,10 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
   }
 
   // Compute covariance
-  covariance = (1 / s) * k + (1 / (s * s) * u * u.transpose());
+  if (s < 0.0)
+  {
+    covariance = (1 / s) * k - (1 / (s * s) * u * u.transpose());
+  }
 
   return best_score / scan_points_to_use;
 }
-- 
2.43.0


From 2467f212ea2e4fb9021f5ed83ac9b8bc0553328a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 12/20] fix: score a scan without points as 0 instead of NaN

---
 src/scan_matcher_ndt.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index fb04656..e331f3b 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -159,7 +159,7 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
     covariance = (1 / s) * k - (1 / (s * s) * u * u.transpose());
   }
 
-  return best_score / scan_points_to_use;
+  return (scan_points_to_use > 0) ? best_score / scan_points_to_use : 0.0;
 }
 
 double ScanMatcherNDT::scoreScan(const ScanPtr & scan) const
@@ -188,7 +188,7 @@ double ScanMatcherNDT::scorePoints(const std::vector<Point> & points, const Pose
     score += -ndt_->likelihood(p);
   }
 
-  return score / scan_points_to_use;
+  return (scan_points_to_use > 0) ? score / scan_points_to_use : 0.0;
 }
 
 void ScanMatcherNDT::reset()
-- 
2.43.0


From 148b7fa7f674b3e71b150a3bd0ab7e48f45b7fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 13/20] fix: ignore laser readings of minus infinity

---
 src/ndt_mapper.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 711f683..089c2bb 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -409,8 +409,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   {
     for (size_t i = msg->ranges.size() - 1; i > 0; --i)
     {
-      // Filter out NANs and scans beyond max range
-      if (std::isnan(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
+      // Filter out NANs, infinities and scans beyond max range
+      if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
       // Project point in laser frame
       double angle = -(msg->angle_min + i * msg->angle_increment);
       Point lp(cos(angle) * msg->ranges[i],
@@ -432,8 +432,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   {
     for (size_t i = 0; i < msg->ranges.size(); ++i)
     {
-      // Filter out NANs and scans beyond max range
-      if (std::isnan(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
+      // Filter out NANs, infinities and scans beyond max range
+      if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
       // Project point in laser frame
       double angle = (msg->angle_min + i * msg->angle_increment);
       Point lp(cos(angle) * msg->ranges[i],
-- 
2.43.0


From 36da435c5772efc8edd142be9973cd594ccad4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 14/20] fix: move laser readings by the motion of the robot
 during the scan

---
 src/ndt_mapper.cpp | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 089c2bb..28dac41 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -364,10 +364,11 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   }
 
   // Now determine robot pose at end of laser scan
+  const size_t num_steps = msg->ranges.empty() ? 0 : msg->ranges.size() - 1;
   geometry_msgs::msg::PoseStamped end_odom_pose_tf;
   end_odom_pose_tf.header.stamp = rclcpp::Time(msg->header.stamp) +
     rclcpp::Duration::from_seconds(
-      static_cast<double>(msg->ranges.size() - 1) * static_cast<double>(msg->time_increment));
+      static_cast<double>(num_steps) * static_cast<double>(msg->time_increment));
   end_odom_pose_tf.header.frame_id = robot_frame_;
   end_odom_pose_tf.pose.orientation.w = 1.0;
   try
@@ -382,17 +383,25 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     return;
   }
 
-  // Determine movement between start and end of laser scan
-  Pose2d translation = fromMsg(end_odom_pose_tf);
-  translation.x -= odom_pose.x;
-  translation.y -= odom_pose.y;
-  translation.theta -= odom_pose.theta;
-
-  // Now scale it by number of measurements
+  // Determine movement between start and end of laser scan, in robot frame at start of scan
+  Pose2d end_odom_pose = fromMsg(end_odom_pose_tf);
+  double cos_op = cos(odom_pose.theta);
+  double sin_op = sin(odom_pose.theta);
+  Pose2d translation;
+  translation.x = cos_op * (end_odom_pose.x - odom_pose.x) +
+                  sin_op * (end_odom_pose.y - odom_pose.y);
+  translation.y = -sin_op * (end_odom_pose.x - odom_pose.x) +
+                  cos_op * (end_odom_pose.y - odom_pose.y);
+  translation.theta = angles::shortest_angular_distance(odom_pose.theta, end_odom_pose.theta);
+
+  // Now scale it by number of measurements (after the first)
   Pose2d trans_per_meas;
-  trans_per_meas.x = translation.x / msg->ranges.size();
-  trans_per_meas.y = translation.y / msg->ranges.size();
-  trans_per_meas.theta = translation.theta / msg->ranges.size();
+  if (num_steps > 0)
+  {
+    trans_per_meas.x = translation.x / num_steps;
+    trans_per_meas.y = translation.y / num_steps;
+    trans_per_meas.theta = translation.theta / num_steps;
+  }
 
   // Need to convert the scan into an ndt_2d style
   ScanPtr scan = std::make_shared<Scan>(graph_->scans.size());
@@ -407,7 +416,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   // Using this scan, convert ROS msg into ndt_2d style scan
   if (laser_inverted_)
   {
-    for (size_t i = msg->ranges.size() - 1; i > 0; --i)
+    for (size_t i = msg->ranges.size(); i-- > 0;)
     {
       // Filter out NANs, infinities and scans beyond max range
       if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
@@ -419,11 +428,10 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       Point point(cos_lt * lp.x - sin_lt * lp.y + laser_transform_.x,
                   sin_lt * lp.x + cos_lt * lp.y + laser_transform_.y);
       // Apply laser movement
-      double cos_tt = cos(translation.theta - (trans_per_meas.theta * i));
-      double sin_tt = sin(translation.theta - (trans_per_meas.theta * i));
-      Point translated(
-        cos_tt * point.x - sin_tt * point.y +(translation.x - (trans_per_meas.x * i)),
-        sin_tt * point.x + cos_tt * point.y + (translation.y - (trans_per_meas.y * i)));
+      double cos_tt = cos(trans_per_meas.theta * i);
+      double sin_tt = sin(trans_per_meas.theta * i);
+      Point translated(cos_tt * point.x - sin_tt * point.y + (trans_per_meas.x * i),
+                       sin_tt * point.x + cos_tt * point.y + (trans_per_meas.y * i));
       // Add point to scan
       points.push_back(translated);
     }
-- 
2.43.0


From 7242f4659de35c17288e3f348d71b654f7b4ea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 15/20] fix: match against the configured number of scans, not
 always ten

---
 src/ndt_mapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 28dac41..600a1a5 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -509,7 +509,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     if (!graph_->scans.empty())
     {
       // Determine rolling window
-      size_t start = (graph_->scans.size() <= rolling_depth_) ? 0 : graph_->scans.size() - 10;
+      size_t start = (graph_->scans.size() <= rolling_depth_) ?
+                     0 : graph_->scans.size() - rolling_depth_;
       auto rolling = graph_->scans.begin() + start;
 
       // Create scan matcher with rolling window scans
-- 
2.43.0


From 5c374f6b90e2651a12bd16e3d77c681a472e8ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 16/20] fix: keep an unusable match score out of the typical
 score

---
 src/ndt_mapper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 600a1a5..daf83c2 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -524,7 +524,10 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       matched_score = local_scan_matcher_->matchScan(scan, correction, covariance);
       RCLCPP_INFO(logger_, "           %f, %f, %f (%f -> %f)",
                   correction.x, correction.y, correction.theta, uncorrected_score, matched_score);
-      typical_matcher_response_ = 0.95 * typical_matcher_response_ + 0.05 * matched_score;
+      if (std::isfinite(matched_score))
+      {
+        typical_matcher_response_ = 0.95 * typical_matcher_response_ + 0.05 * matched_score;
+      }
 
       // Add correction to scan corrected pose
       correction.x += scan->getPose().x;
-- 
2.43.0


From edebd93ff72cc1bf2f4aac2fdad14c52d90eab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 17/20] fix: do not close loops in the map while localizing
 with the particle filter

---
 src/ndt_mapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index daf83c2..42ee363 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -585,7 +585,7 @@ void Mapper::loopClosureThread()
     std::this_thread::sleep_for(std::chrono::seconds(1));
 
     // Only do loop closure if we are mapping
-    if (!enable_mapping_)
+    if (!enable_mapping_ || use_particle_filter_)
     {
       continue;
     }
-- 
2.43.0


From 385f62a95dadcc08240fbfe29b97ebf9ff6e99cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 18/20] fix: start afresh with a loaded map, in localization,
 loop closure and optimization

---
 include/ndt_2d/ndt_mapper.hpp |  10 +++-
 src/ndt_mapper.cpp            | 105 ++++++++++++++++++++++++++--------
 2 files changed, 89 insertions(+), 26 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 9fe6ae4..999d712 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -32,6 +32,7 @@
 #include <tf2_ros/buffer.h>
 #include <tf2_ros/transform_listener.h>
 #include <tf2_ros/transform_broadcaster.h>
+#include <atomic>
 #include <memory>
 #include <mutex>
 #include <string>
@@ -68,6 +69,9 @@ protected:
   /** @brief ROS callback for new laser scan */
   void laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& msg);
 
+  /** @brief Give all scans to the global scan matcher, global_matcher_mutex_ must be locked */
+  void updateLocalizationMap();
+
   // Thread for doing global loop closure
   void loopClosureThread();
   size_t global_scans_processed_;
@@ -99,12 +103,16 @@ protected:
 
   // Scan matchers
   // Used for loop closure when mapping, and localization
+  // The mutex is locked before graph_mutex_ where both are needed
   ScanMatcherPtr global_scan_matcher_;
+  std::mutex global_matcher_mutex_;
+  // Whether global scan matcher holds all scans of the current map
+  std::atomic<bool> localization_map_valid_;
   // Used for odometric correction when mapping
   ScanMatcherPtr local_scan_matcher_;
   pluginlib::ClassLoader<ScanMatcher> scan_matcher_loader_;
   std::string scan_matcher_type_;
-  double typical_matcher_response_;
+  std::atomic<double> typical_matcher_response_;
 
   // ROS 2 interfaces
   rclcpp::Logger logger_;
diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 42ee363..81a1d2e 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -45,6 +45,9 @@
 namespace ndt_2d
 {
 
+// Assumed score of a good match, until scans have been matched
+constexpr double INITIAL_MATCHER_RESPONSE = -0.5;
+
 Mapper::Mapper(const rclcpp::NodeOptions & options)
 : rclcpp::Node("ndt_2d_mapper", options),
   global_scans_processed_(0),
@@ -52,7 +55,8 @@ Mapper::Mapper(const rclcpp::NodeOptions & options)
   laser_inverted_(false),
   optimization_last_(0),
   scan_matcher_loader_("ndt_2d", "ndt_2d::ScanMatcher"),
-  typical_matcher_response_(-0.5),
+  localization_map_valid_(false),
+  typical_matcher_response_(INITIAL_MATCHER_RESPONSE),
   logger_(rclcpp::get_logger("ndt_2d_mapper")),
   prev_odom_pose_is_initialized_(true)
 {
@@ -167,6 +171,8 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
     enable_mapping_ = false;
     // Need to be relocalized before mapping can continue
     prev_odom_pose_is_initialized_ = false;
+    // The map has grown since it was last used to localize
+    localization_map_valid_ = false;
   }
 
   if (request->action & srv::Configure::Request::LOAD_FROM_FILE)
@@ -176,6 +182,8 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
     graph_ = std::make_shared<Graph>(use_barycenter_, request->filename);
     map_update_available_ = true;
     prev_odom_pose_is_initialized_ = false;
+    localization_map_valid_ = false;
+    typical_matcher_response_ = INITIAL_MATCHER_RESPONSE;
   }
   else if (request->action & srv::Configure::Request::SAVE_TO_FILE)
   {
@@ -292,18 +300,9 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     }
     laser_frame_ = msg->header.frame_id;
 
-    // range_max_ must be set before building the global scan matcher NDT
-    if (use_particle_filter_ || !enable_mapping_)
-    {
-      // When localizing, global scan matcher uses ALL scans
-      global_scan_matcher_ = scan_matcher_loader_.createSharedInstance(scan_matcher_type_);
-      global_scan_matcher_->initialize("global_scan_matcher", this, range_max_);
-      // Note: no need to lock graph here, since this thread is the only one that adds scans
-      global_scan_matcher_->addScans(graph_->scans.begin(), graph_->scans.end());
-    }
-    else
     {
-      // When map building, global scan matcher is just for loop closures
+      // range_max_ must be set before building the global scan matcher NDT
+      std::lock_guard<std::mutex> matcher_lock(global_matcher_mutex_);
       global_scan_matcher_ = scan_matcher_loader_.createSharedInstance(scan_matcher_type_);
       global_scan_matcher_->initialize("global_scan_matcher", this, range_max_);
     }
@@ -479,7 +478,11 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
                          robot_delta(1), robot_delta(2));
 
     filter_->update(robot_delta(0), robot_delta(1), robot_delta(2));
-    filter_->measure(global_scan_matcher_, scan);
+    {
+      std::lock_guard<std::mutex> matcher_lock(global_matcher_mutex_);
+      updateLocalizationMap();
+      filter_->measure(global_scan_matcher_, scan);
+    }
     filter_->resample(kld_err_, kld_z_);
 
     auto mean = filter_->getMean();
@@ -559,6 +562,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   else
   {
     // Not using particle filter, nor mapping, just track motion of robot
+    std::lock_guard<std::mutex> matcher_lock(global_matcher_mutex_);
+    updateLocalizationMap();
     Pose2d correction;
     Eigen::Matrix3d covariance;
     double uncorrected_score = global_scan_matcher_->scoreScan(scan);
@@ -578,8 +583,25 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   }
 }
 
+void Mapper::updateLocalizationMap()
+{
+  if (localization_map_valid_)
+  {
+    return;
+  }
+
+  // When localizing, global scan matcher uses ALL scans
+  std::lock_guard<std::mutex> lock(graph_mutex_);
+  global_scan_matcher_->reset();
+  global_scan_matcher_->addScans(graph_->scans.begin(), graph_->scans.end());
+  localization_map_valid_ = true;
+}
+
 void Mapper::loopClosureThread()
 {
+  // The graph being processed
+  GraphPtr graph;
+
   while (rclcpp::ok())
   {
     std::this_thread::sleep_for(std::chrono::seconds(1));
@@ -594,7 +616,15 @@ void Mapper::loopClosureThread()
     size_t num_scans;
     {
       std::lock_guard<std::mutex> lock(graph_mutex_);
-      num_scans = graph_->scans.size();
+      if (graph != graph_)
+      {
+        // Another map, start over
+        graph = graph_;
+        solver_ = std::make_shared<CeresSolver>();
+        global_scans_processed_ = 0;
+        optimization_last_ = 0;
+      }
+      num_scans = graph->scans.size();
     }
 
     // Can't do a global search until we have at least enough scans
@@ -603,6 +633,15 @@ void Mapper::loopClosureThread()
       continue;
     }
 
+    // Can't match until a laser scan was received
+    {
+      std::lock_guard<std::mutex> matcher_lock(global_matcher_mutex_);
+      if (!global_scan_matcher_)
+      {
+        continue;
+      }
+    }
+
     // We don't process the initial rolling window for loop closure
     if (global_scans_processed_ <= rolling_depth_)
     {
@@ -623,8 +662,12 @@ void Mapper::loopClosureThread()
         std::vector<size_t> scans;
         {
           std::lock_guard<std::mutex> lock(graph_mutex_);
-          scan = graph_->scans[global_scans_processed_];
-          scans = graph_->findNearest(scan, global_search_size_, rolling);
+          if (graph != graph_)
+          {
+            break;
+          }
+          scan = graph->scans[global_scans_processed_];
+          scans = graph->findNearest(scan, global_search_size_, rolling);
         }
 
         // Now do global loop closure scan matching
@@ -632,17 +675,19 @@ void Mapper::loopClosureThread()
         for (auto i : scans)
         {
           // Lock graph to access scans
+          std::lock_guard<std::mutex> matcher_lock(global_matcher_mutex_);
           std::unique_lock<std::mutex> lock(graph_mutex_);
-          const auto candidate = graph_->scans[i];
+          const auto candidate = graph->scans[i];
           if (candidate->getPoints().empty()) continue;
 
           // Take one additional scan on either side of candidate
           size_t begin_idx = (i > 0) ? i - 1: i;
           size_t end_idx = (i < rolling) ? i + 1 : i;
-          auto begin = graph_->scans.begin() + begin_idx;
-          auto end = graph_->scans.begin() + end_idx;
+          auto begin = graph->scans.begin() + begin_idx;
+          auto end = graph->scans.begin() + end_idx;
 
           // Build NDT of candidate region
+          localization_map_valid_ = false;
           global_scan_matcher_->reset();
           global_scan_matcher_->addScans(begin, end);
 
@@ -656,10 +701,17 @@ void Mapper::loopClosureThread()
 
           if (std::isfinite(score) && (score < typical_matcher_response_))
           {
-            new_matches = true;
             RCLCPP_INFO(logger_, "***Adding loop closure from %lu to %lu (score %f)",
                                  candidate->getId(), scan->getId(), score);
 
+            lock.lock();  // lock before correcting pose and adding constraint
+            if (graph != graph_)
+            {
+              // Map was replaced while matching
+              break;
+            }
+            new_matches = true;
+
             // Correct pose
             correction.x += scan->getPose().x;
             correction.y += scan->getPose().y;
@@ -669,8 +721,7 @@ void Mapper::loopClosureThread()
             // Add constraint to the graph
             ConstraintPtr constraint = makeConstraint(candidate, scan, covariance);
             constraint->switchable = true;
-            lock.lock();  // lock before adding constraint
-            graph_->constraints.push_back(constraint);
+            graph->constraints.push_back(constraint);
             map_update_available_ = true;
           }
           else
@@ -689,9 +740,13 @@ void Mapper::loopClosureThread()
     {
       RCLCPP_INFO(logger_, "Optimizing pose graph");
       std::lock_guard<std::mutex> lock(graph_mutex_);
-      solver_->optimize(graph_->constraints, graph_->scans);
-      optimization_last_ = graph_->scans.size();
-      map_update_available_ = true;
+      if (graph == graph_)
+      {
+        solver_->optimize(graph->constraints, graph->scans);
+        optimization_last_ = graph->scans.size();
+        map_update_available_ = true;
+        localization_map_valid_ = false;
+      }
     }
   }
 }
-- 
2.43.0


From 8b050051d50c5edc3cc2c76c7404a8fb3e3742a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 19/20] fix: lock shared map data in every thread that uses it

---
 include/ndt_2d/ndt_mapper.hpp |  4 ++--
 src/ndt_mapper.cpp            | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 999d712..c69d8b7 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -79,7 +79,7 @@ protected:
 
   // Thread for publishing map and transforms
   void mapPublishThread();
-  bool map_update_available_;
+  std::atomic<bool> map_update_available_;
   std::unique_ptr<std::thread> map_publish_thread_;
 
   // Mapping parameters
@@ -129,7 +129,7 @@ protected:
   // Map data
   GraphPtr graph_;
   std::mutex graph_mutex_;
-  bool enable_mapping_;
+  std::atomic<bool> enable_mapping_;
   std::mutex prev_pose_mutex_;
   // The previous odom_frame_->robot_frame_
   Pose2d prev_odom_pose_;
diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 81a1d2e..3f232eb 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -264,6 +264,7 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
   }
 
   // Localize robot
+  std::lock_guard<std::mutex> lock(prev_pose_mutex_);
   prev_robot_pose_ = fromMsg(msg->pose.pose);
   prev_odom_pose_ = fromMsg(odom_to_robot);
   prev_odom_pose_is_initialized_ = true;
@@ -518,7 +519,10 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
 
       // Create scan matcher with rolling window scans
       local_scan_matcher_->reset();
-      local_scan_matcher_->addScans(rolling, graph_->scans.end());
+      {
+        std::lock_guard<std::mutex> lock(graph_mutex_);
+        local_scan_matcher_->addScans(rolling, graph_->scans.end());
+      }
 
       // Local consistency - match new scan against last 10 scans
       Pose2d correction;
@@ -539,8 +543,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       scan->setPose(correction);
 
       // Add odom constraint to the graph
-      ConstraintPtr constraint = makeConstraint(graph_->scans.back(), scan, covariance);
       std::lock_guard<std::mutex> lock(graph_mutex_);
+      ConstraintPtr constraint = makeConstraint(graph_->scans.back(), scan, covariance);
       graph_->constraints.push_back(constraint);
     }
 
@@ -781,7 +785,12 @@ void Mapper::mapPublishThread()
     }
 
     // Publish TF
-    if (!graph_->scans.empty())
+    bool have_map;
+    {
+      std::lock_guard<std::mutex> lock(graph_mutex_);
+      have_map = !graph_->scans.empty();
+    }
+    if (have_map)
     {
       // Lock previous poses before accessing
       std::unique_lock<std::mutex> lock(prev_pose_mutex_);
-- 
2.43.0


From 5893c05a544de352362608cf2fe4b01aa40e829e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:51 +0000
Subject: [PATCH 20/20] fix: take the pose of a new scan before other threads
 can change it

---
 src/ndt_mapper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 3f232eb..47286eb 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -551,7 +551,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     RCLCPP_INFO(logger_, "Corrected: %f, %f, %f",
                 scan->getPose().x, scan->getPose().y, scan->getPose().theta);
 
-    // Append new scan to our graph
+    // Append new scan to our graph, other threads may correct its pose from there on
+    robot_pose = scan->getPose();
     {
       std::lock_guard<std::mutex> lock(graph_mutex_);
       graph_->scans.push_back(scan);
@@ -560,7 +561,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     // Update previous pose tracking (under lock)
     std::lock_guard<std::mutex> lock(prev_pose_mutex_);
     prev_odom_pose_ = odom_pose;
-    prev_robot_pose_ = scan->getPose();
+    prev_robot_pose_ = robot_pose;
     map_update_available_ = true;
   }
   else
-- 
2.43.0

