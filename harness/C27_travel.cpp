// property: C27
// sources: src/ndt_mapper.cpp src/graph.cpp src/scan.cpp src/constraint.cpp src/ceres_solver.cpp src/particle_filter.cpp src/motion_model.cpp
// cases: 7
// branch_timeout: 0.1
// bounds: odometry at any pose within 100 m, then anywhere within 2 m of it with any heading; used scans before it: the first of a map, one that was matched with any correction up to 0.5 m and 0.5 rad, one followed by an unused scan; while mapping, localizing from any initial pose, or using the particle filter (headings near one value); thresholds of 0.5 m and 0.5 rad and others
// outside: travel within 1e-6 of the threshold, but for exactly the threshold along an axis
#include "mapper_common.h"

static HalfPose near(const HalfPose & o, double d)
{
  return half(o.x + vs_real("dx", -d, d), o.y + vs_real("dy", -d, d), vs_angle("h") / 2);
}
static bool far_enough(const HalfPose & a, const HalfPose & b)
{
  const double d2 = (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y);
  const double t = set.travel * set.travel;
  vs_assume(d2 < t - 1e-6 || d2 > t + 1e-6);
  // the turn, the short way round
  double h = 2 * a.half - 2 * b.half;
  if (h > M_PI) h -= 2 * M_PI;
  if (h < -M_PI) h += 2 * M_PI;
  if (h < 0) h = -h;
  vs_assume(h < set.turn - 1e-6 || h > set.turn + 1e-6);
  return d2 > t || h > set.turn;
}
// Where the robot is when odometry went from a to b, if it was at p
static Pose2d moved(const Pose2d & p, const HalfPose & a, const HalfPose & b)
{
  const double ca = std::cos(2 * a.half), sa = std::sin(2 * a.half);
  return compose(p, Pose2d(ca * (b.x - a.x) + sa * (b.y - a.y), -sa * (b.x - a.x) + ca * (b.y - a.y), 2 * (b.half - a.half)));
}

int main()
{
  const int c = vs_case();
  const HalfPose a = c == 4 ? half(0, 0, 0) :
    half(vs_real("ox", -100, 100), vs_real("oy", -100, 100), c == 6 ? 0.15 : vs_angle("oh") / 2);
  Pose2d correction;
  on_match = [&](const Recorder &, const ScanPtr &, Pose2d & p, Eigen::Matrix3d & cov)
    { p = correction; cov = Eigen::Vector3d(0.25, 0.25, 0.5).asDiagonal(); return -0.5; };
  if (c >= 5)
  {
    ndt_2d::Graph g(false);
    for (int i = 0; i < 2; ++i)
    {
      auto s = std::make_shared<ndt_2d::Scan>(i);
      s->setPose(Pose2d(i, 0, 0));
      g.scans.push_back(s);
    }
    g.save("map");
    set.map_file = "map";
    set.mapping = false;
    set.filter = c == 6;
    set.min_particles = set.max_particles = 1;
  }
  if (c == 1) { set.travel = 0.25; set.turn = 1.5; }
  auto node = start_node();
  Pose2d at;
  HalfPose before = a;
  if (c >= 5)
  {
    tf.odom = a;
    const HalfPose p = half(vs_real("px", -100, 100), vs_real("py", -100, 100), c == 6 ? -0.55 : vs_angle("ph") / 2);
    give_pose(p, 0);
    at = whole(p);
  }
  else
  {
    give_scan(a);
    if (c == 2)
    {
      const HalfPose b = half(a.x + 1, a.y + 0.5, a.half + 0.125);
      correction = Pose2d(vs_real("cx", -0.5, 0.5), vs_real("cy", -0.5, 0.5), vs_real("ct", -0.5, 0.5));
      give_scan(b);
      at = moved(at, a, b);
      at = Pose2d(at.x + correction.x, at.y + correction.y, at.theta + correction.theta);
      before = b;
    }
    else if (c == 3)
    {
      // too small a step: the next one counts from where the last used scan was
      give_scan(half(a.x + 0.375, a.y - 0.125, a.half - 0.125));
      vs_check(graph_now()->scans.size() == 1, "too little travel is not used");
    }
  }
  const HalfPose b = c == 4 ? half(0, vs_bool("left") ? 0.5 : -0.5, 0) :
    c == 6 ? half(a.x + vs_real("dx", 0.25, 1.5), a.y + vs_real("dy", 0.25, 1), 0.15 + vs_real("dh", -0.2, 0.2)) : near(before, 2);
  const bool use = c == 4 || far_enough(before, b);
  for (auto & m : matchers) m->asked.clear();
  const size_t scans = graph_now()->scans.size();
  // the filter's next steps are of no interest here
  on_points = [](const Recorder &, const Pose2d &) -> double { throw Stop(); };
  try { give_scan(b); } catch (const Stop &) {}
  Recorder * m = matcher(c >= 5 ? "global_scan_matcher" : "local_scan_matcher");
  if (use)
  {
    vs_reach("used");
    vs_check(m && m->asked.size() > 0, "used after enough travel");
    same_pose(m->asked.back().at, moved(at, before, b), "assumed pose");
    vs_check(c >= 5 || graph_now()->scans.size() == scans + 1, "used after enough travel");
  }
  else
  {
    vs_reach("ignored");
    vs_check(!m || m->asked.empty(), "ignored after too little travel");
    vs_check(graph_now()->scans.size() == scans, "ignored after too little travel");
  }
  return 0;
}
