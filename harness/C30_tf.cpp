// property: C30
// sources: src/ndt_mapper.cpp src/graph.cpp src/scan.cpp src/constraint.cpp src/ceres_solver.cpp src/particle_filter.cpp src/motion_model.cpp
// cases: 6
// branch_timeout: 0.1
// bounds: odometry at any pose within 100 m, any initial pose within 100 m, any correction of the match up to 1 m and 1 rad; after the first scan, a matched scan, an initial pose, a localized scan, a filtered scan, each followed by a scan or pose that is not used
// outside: histories longer than these (the transform depends on the last used scan or pose only); rounding (1e-6)
#define VS_OWN_DRAWS
#include <cstddef>
extern "C" double vs_draw_normal(double mean, double) { return mean; }
extern "C" double vs_draw_uniform(double a, double) { return a; }
extern "C" size_t vs_draw_discrete(const double *, size_t) { return 0; }
#include "mapper_common.h"

static void explains(const Pose2d & robot, const HalfPose & odom)
{
  sent.clear();
  one_round();
  vs_check(sent.size() == 1, "one transform is published per round");
  const auto & t = sent[0];
  vs_check(t.header.frame_id == "map" && t.child_frame_id == "wheels", "frame names");
  const auto & q = t.transform.rotation;
  vs_check(q.x == 0 && q.y == 0 && t.transform.translation.z == 0, "in the plane");
  vs_check_close(q.z * q.z + q.w * q.w, 1, 1e-6, "unit quaternion");
  // rotation of the quaternion, as a matrix
  const double c = q.w * q.w - q.z * q.z, s = 2 * q.w * q.z;
  vs_check_close(t.transform.translation.x + c * odom.x - s * odom.y, robot.x, 1e-5, "composed with odometry it is the robot pose");
  vs_check_close(t.transform.translation.y + s * odom.x + c * odom.y, robot.y, 1e-5, "composed with odometry it is the robot pose");
  const double co = std::cos(2 * odom.half), so = std::sin(2 * odom.half);
  vs_check_close(c * co - s * so, std::cos(robot.theta), 1e-6, "composed with odometry it is the robot heading");
  vs_check_close(s * co + c * so, std::sin(robot.theta), 1e-6, "composed with odometry it is the robot heading");
}

int main()
{
  const int c = vs_case();
  Pose2d correction;
  on_match = [&](const Recorder &, const ScanPtr &, Pose2d & p, Eigen::Matrix3d & cov)
    { p = correction; cov = Eigen::Vector3d(0.25, 0.25, 0.5).asDiagonal(); return -0.5; };
  const bool map = c >= 2;
  set.mapping = c < 2 || c == 5;
  set.filter = c == 4;
  set.min_particles = set.max_particles = 1;
  if (map)
  {
    ndt_2d::Graph g(false);
    auto s = std::make_shared<ndt_2d::Scan>(0);
    s->setPoints({Point(1, 1)});
    g.scans.push_back(s);
    g.save("map");
    set.map_file = "map";
  }
  const bool both = c == 1 || c == 3;
  const HalfPose a = half(vs_real("ox", -100, 100), vs_real("oy", -100, 100), both ? 0.25 : vs_angle("oh") / 2);
  auto node = start_node();
  HalfPose odom = a;
  Pose2d robot;
  sent.clear();
  if (!map)
  {
    one_round();
    vs_check(sent.empty(), "nothing is published before there is a map");
    give_scan(odom);
  }
  else
  {
    tf.odom = odom;
    const double r = c == 5 ? 5 : 100;
    const HalfPose p = c == 4 ? half(3, -4, 0.75) : half(vs_real("px", -r, r), vs_real("py", -r, r), both ? -0.5 : vs_angle("ph") / 2);
    give_pose(p);
    robot = whole(p);
  }
  explains(robot, odom);
  // what is not used does not change it
  tf.odom = half(odom.x + 0.25, odom.y, odom.half);
  give_scan(laser(1));
  tf.has_odom = false;
  give_pose(half(1, 2, 0.25));
  tf.has_odom = true;
  give_pose(half(1, 2, 0.25), 1, "wheels");
  explains(robot, odom);
  if (c == 1 || c == 3 || c == 4)
  {
    // 1 m forward
    const double h = 2 * odom.half;
    odom = half(odom.x + std::cos(h), odom.y + std::sin(h), odom.half + 0.125);
    robot = Pose2d(robot.x + std::cos(robot.theta), robot.y + std::sin(robot.theta), robot.theta + 0.25);
    correction = Pose2d(vs_real("cx", -1, 1), vs_real("cy", -1, 1), vs_real("ct", -1, 1));
    give_scan(odom);
    if (c == 4)
    {
      using Cloud = geometry_msgs::msg::PoseArray;
      vs_check(!rclcpp::VsTopic<Cloud>::msgs.empty() && rclcpp::VsTopic<Cloud>::msgs.back().poses.size() == 1, "the particles are published");
      const auto & p = rclcpp::VsTopic<Cloud>::msgs.back().poses[0];
      robot = Pose2d(p.position.x, p.position.y, 2 * std::atan2(p.orientation.z, p.orientation.w));
      vs_reach("filtered");
    }
    else robot = Pose2d(robot.x + correction.x, robot.y + correction.y, robot.theta + correction.theta);
    explains(robot, odom);
  }
  return 0;
}
