// property: C26
// sources: src/ndt_mapper.cpp src/graph.cpp src/scan.cpp src/constraint.cpp src/ceres_solver.cpp src/particle_filter.cpp src/motion_model.cpp
// cases: 8
// branch_timeout: 0.1
// bounds: messages of one to three valid readings at any bearing; any mounting pose of the laser, upright or upside down; the robot starts anywhere within 100 m of the odometry origin with any heading and moves by any translation up to 1 m and any rotation up to 1.4 rad during the message, at constant velocity
// outside: longer messages (the fraction of the motion at a reading is its index over the last index); motion that is not uniform
#include "mapper_common.h"

int main()
{
  const int c = vs_case();
  const int n = c % 4 == 3 ? 3 : c % 4;
  tf.upside_down = c >= 4;
  if (c % 4 == 3) set.range = 20;
  const double mx = vs_real("mx", -2, 2), my = vs_real("my", -2, 2), mh = vs_real("mh", -1.5707, 1.5707);
  tf.mount = half(mx, my, mh);
  const HalfPose from = half(vs_real("ox", -100, 100), vs_real("oy", -100, 100), vs_real("oh", -1.5, 1.5));
  const HalfPose by = half(vs_real("dx", -1, 1), vs_real("dy", -1, 1), vs_real("dh", -0.7, 0.7));
  auto m = laser(n);
  const int64_t t0 = 100000000000, span = n < 2 ? 1 : 62500000 * (n - 1);
  tf.odom_at = [&](int64_t t) {
    const double f = static_cast<double>(t - t0) / span;
    const double s = std::sin(2 * from.half), co = std::cos(2 * from.half);
    return half(from.x + co * f * by.x - s * f * by.y, from.y + s * f * by.x + co * f * by.y, from.half + f * by.half);
  };
  const double a0 = vs_angle("a"), inc = 0.5;
  m->angle_min = a0;
  m->angle_increment = inc;
  std::vector<double> r;
  for (int i = 0; i < n; ++i)
  {
    r.push_back(vs_real("r", 0.25, 9));
    m->ranges[i] = r[i];
  }
  auto node = start_node();
  give_scan(m);
  auto g = graph_now();
  vs_check(g->scans.size() == 1, "the first scan is used");
  const std::vector<Point> p = g->scans[0]->getPoints();
  vs_check(p.size() == r.size(), "one point per reading");
  const Pose2d o = g->scans[0]->getPose();
  vs_check(o.x == 0 && o.y == 0 && o.theta == 0, "the first scan is the origin of the map");
  for (int i = 0; i < n; ++i)
  {
    const double f = n < 2 ? 0 : i * 1.0 / (n - 1), s = f;
    const double b = (tf.upside_down ? -1 : 1) * (a0 + i * inc);
    const Pose2d on_robot = compose(Pose2d(mx, my, 2 * mh), Pose2d(std::cos(b) * r[i], std::sin(b) * r[i], 0));
    const Pose2d at = compose(Pose2d(by.x * f, by.y * f, 2 * by.half * s), on_robot);
    // a laser that is upside down may be read the other way round
    const bool reversed = tf.upside_down && n > 1;
    const Point q = reversed ? p[n - 1 - i] : p[i];
    vs_check_close(q.x, at.x, 1e-4, "x of the point");
    vs_check_close(q.y, at.y, 1e-4, "y of the point");
  }
  return 0;
}
