// property: C28
// sources: src/ndt_mapper.cpp src/graph.cpp src/scan.cpp src/constraint.cpp src/ceres_solver.cpp src/particle_filter.cpp src/motion_model.cpp
// cases: 6
// branch_timeout: 0.1
// bounds: maps of up to four scans with rolling windows of 1, 2, 3 and 10 scans; the first odometry pose anywhere within 100 m, any correction up to 1 m and 1 rad and any correlated covariance for every matched scan; scans without enough travel and a scan without readings in between
// outside: longer maps (the window is given by the size of the map and the depth alone)
#include "mapper_common.h"
#include <Eigen/LU>

int main()
{
  const int c = vs_case();
  set.rolling = c == 0 ? 1 : c == 1 ? 2 : c == 2 ? 3 : c == 3 ? 10 : 2;
  const int scans = c == 5 ? 3 : 4;
  const bool symbolic_start = c == 5;
  const HalfPose a = symbolic_start ? half(vs_real("ox", -100, 100), vs_real("oy", -100, 100), vs_angle("oh") / 2) : half(3, -2, 0.5);
  Pose2d correction;
  Eigen::Matrix3d covariance;
  double score = -0.5;
  int matched = 0;
  std::vector<size_t> against;
  std::vector<Pose2d> against_at;
  on_match = [&](const Recorder & m, const ScanPtr &, Pose2d & p, Eigen::Matrix3d & cov)
  {
    ++matched;
    p = correction;
    cov = covariance;
    against.clear();
    for (auto & s : m.map) against.push_back(s->getId());
    against_at = m.at;
    return score;
  };
  auto node = start_node();
  HalfPose at = a;
  Pose2d robot;
  std::vector<Pose2d> poses;
  std::vector<std::shared_ptr<ndt_2d::Constraint>> links;
  for (int i = 0; i < scans; ++i)
  {
    if (i > 0)
    {
      if (i == 2)
      {
        // not far enough
        matched = 0;
        give_scan(half(at.x + 0.25, at.y, at.half + 0.125));
        vs_check(matched == 0, "only used scans are matched");
      }
      const double dx = 0.75, dy = i == 2 ? -0.5 : 0.25, dh = 0.25;
      const double ca = std::cos(2 * at.half), sa = std::sin(2 * at.half);
      const HalfPose to = half(at.x + dx, at.y + dy, at.half + dh);
      robot = compose(robot, Pose2d(ca * dx + sa * dy, -sa * dx + ca * dy, 2 * dh));
      at = to;
      // a covariance whose inverse is easily written down
      const double v = i == 1 ? vs_real("v", 0.25, 4) : 0.5 * i;
      covariance << 2, 0.5, 0, 0.5, 1, 0, 0, 0, v;
      if (i == 1 || symbolic_start)
        correction = Pose2d(vs_real("cx", -1, 1), vs_real("cy", -1, 1), vs_real("ct", -1, 1));
      else
        correction = Pose2d(0.25, -0.125, 0.0625);
      score = c == 4 && i == 2 ? std::numeric_limits<double>::quiet_NaN() : -0.5;
    }
    matched = 0;
    tf.odom = at;
    give_scan(laser(c == 4 && i == 1 ? 0 : i + 1));
    vs_check(matched == (i > 0), "every scan but the first is matched, once");
    if (i > 0)
    {
      vs_reach("matched");
      size_t from = i > set.rolling ? i - set.rolling : 0;
      vs_check(against.size() == i - from, "matched against the last scans");
      for (size_t k = from; k < static_cast<size_t>(i); ++k)
      {
        vs_check(against[k - from] == k, "matched against the last scans");
        same_pose(against_at[k - from], poses[k], "matched against the last scans where they are");
      }
      robot = Pose2d(robot.x + correction.x, robot.y + correction.y, robot.theta + correction.theta);
      Eigen::Matrix3d info;
      info << 1 / 1.75, -0.5 / 1.75, 0, -0.5 / 1.75, 2 / 1.75, 0, 0, 0, 1 / covariance(2, 2);
      auto l = std::make_shared<ndt_2d::Constraint>();
      l->begin = i - 1;
      l->end = i;
      const Pose2d b = poses[i - 1];
      const double cb = std::cos(b.theta), sb = std::sin(b.theta);
      l->transform << cb * (robot.x - b.x) + sb * (robot.y - b.y), -sb * (robot.x - b.x) + cb * (robot.y - b.y), robot.theta - b.theta;
      l->information = info;
      links.push_back(l);
    }
    poses.push_back(robot);
    // the whole graph is as expected
    auto g = graph_now();
    vs_check(g->scans.size() == poses.size(), "appended once");
    vs_check(g->constraints.size() == links.size(), "one constraint to the predecessor");
    for (size_t k = 0; k < poses.size(); ++k)
    {
      vs_check(g->scans[k]->getId() == k, "ids are indices");
      same_pose(g->scans[k]->getPose(), poses[k], "pose is the estimate plus the correction");
      vs_check(g->scans[k]->getPoints().size() == (c == 4 && k == 1 ? 0 : k + 1), "points of the message");
    }
    for (size_t k = 0; k < links.size(); ++k)
    {
      vs_check(g->constraints[k]->begin == links[k]->begin && g->constraints[k]->end == links[k]->end, "links the scan to its predecessor");
      vs_check(!g->constraints[k]->switchable, "odometry is not switchable");
      for (int d = 0; d < 2; ++d)
        vs_check_close(g->constraints[k]->transform(d), links[k]->transform(d), 1e-6, "constraint holds the relative pose");
      vs_check_angle(g->constraints[k]->transform(2), links[k]->transform(2), 1e-6, "constraint holds the relative pose");
      for (int d = 0; d < 3; ++d)
        for (int e = 0; e < 3; ++e)
          vs_check_close(g->constraints[k]->information(d, e), links[k]->information(d, e), 1e-6, "constraint holds the covariance");
    }
  }
  return 0;
}
