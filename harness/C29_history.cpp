// property: C29
// sources: src/ndt_mapper.cpp src/graph.cpp src/scan.cpp src/constraint.cpp src/ceres_solver.cpp src/particle_filter.cpp src/motion_model.cpp
// cases: 6
// branch_timeout: 0.1
// time: 500
// defines: STEPS=3
// thorough_defines: STEPS=4
// bounds: a node that starts with a map of three scans or without one, with mapping enabled, disabled or with the particle filter, and every sequence of three (thorough: four) messages after that: a scan after enough travel, an initial pose near the map or far from it, one in another frame, one while odometry is not available, enabling and disabling mapping; the threads get a turn after each message
// outside: longer sequences; initial poses given while not mapping and before mapping is enabled again are not linked to the map
#define VS_OWN_DRAWS
#include <cstddef>
extern "C" double vs_draw_normal(double mean, double) { return mean; }
extern "C" double vs_draw_uniform(double a, double) { return a; }
extern "C" size_t vs_draw_discrete(const double *, size_t) { return 0; }
#include "mapper_common.h"

static std::shared_ptr<ndt_2d::Graph> expected;
static void unchanged(const char * id)
{
  auto g = graph_now();
  vs_check(g->scans.size() == expected->scans.size() && g->constraints.size() == expected->constraints.size(), id);
  for (size_t i = 0; i < g->scans.size(); ++i)
  {
    const Pose2d p = g->scans[i]->getPose(), q = expected->scans[i]->getPose();
    vs_check(p.x == q.x && p.y == q.y && p.theta == q.theta, id);
  }
}

int main()
{
  const int c = vs_case();
  // every score would be good enough to close a loop
  on_match = [](const Recorder &, const ScanPtr &, Pose2d & p, Eigen::Matrix3d & cov)
    { p = Pose2d(0.125, 0, 0); cov = Eigen::Vector3d(0.25, 0.25, 0.5).asDiagonal(); return -0.875; };
  const double py_near = 2, py_far = 600;
  const bool loaded = c % 3 != 2;
  set.mapping = c % 3 != 0;
  set.filter = c >= 3;
  set.rolling = 1;
  set.node_limit = 0;
  set.min_particles = set.max_particles = 1;
  if (loaded)
  {
    ndt_2d::Graph g(false);
    for (int i = 0; i < 3; ++i)
    {
      auto s = std::make_shared<ndt_2d::Scan>(i);
      s->setPose(Pose2d(0.25 * i, 0, 0));
      s->setPoints({Point(1, 1)});
      g.scans.push_back(s);
    }
    g.save("map");
    set.map_file = "map";
  }
  auto node = start_node();
  bool mapping = set.mapping, localized = !loaded;
  double x = 1, odom_x = 0;
  Pose2d robot;
  expected = graph_now();
  for (int i = 0; i < STEPS; ++i)
  {
    const int op = vs_int("op", 0, 6);
    for (auto & m : matchers) m->asked.clear();
    const size_t scans = expected->scans.size(), links = expected->constraints.size();
    bool grows = false;
    x += 1;
    tf.odom = half(x, 0, 0);
    if (op == 0)
    {
      give_scan(laser(1));
      size_t asked = 0;
      for (auto & m : matchers) asked += m->asked.size();
      if (!localized) { vs_check(asked == 0, "scans are ignored until localized"); vs_reach("not localized"); }
      else if (scans > 0 || !mapping || set.filter) vs_check(asked > 0, "scans are used once localized");
      grows = localized && mapping && !set.filter;
      if (localized)
      {
        robot = scans ? compose(robot, Pose2d(x - odom_x, 0, 0)) : Pose2d();
        odom_x = x;
        for (auto & m : matchers)
          if (!m->asked.empty()) same_pose(m->asked.back().at, robot, "the robot is where the last accepted pose and odometry put it", set.filter ? 1e-3 : 1e-6);
        if (!set.filter && (scans || !mapping)) robot.x += 0.125;
      }
    }
    else if (op < 5)
    {
      const bool far = op == 2, frame = op != 3, odometry = op != 4;
      tf.has_odom = odometry;
      give_pose(half(0.0625, far ? py_far : py_near, 0.125), 0.25, frame ? "map" : "wheels");
      tf.has_odom = true;
      if (frame && odometry && !(mapping && localized))
      {
        bool accepted = set.filter || !mapping;
        if (!accepted && !far && scans > 0) { accepted = grows = true; vs_reach("linked"); }
        if (accepted)
        {
          localized = true;
          robot = Pose2d(0.0625, far ? py_far : py_near, 0.25);
          odom_x = x;
        }
      }
    }
    else if (op == 5) { configure(Config::Request::DISABLE_MAPPING); mapping = localized = false; }
    else { configure(Config::Request::ENABLE_MAPPING); mapping = true; }
    if (grows)
    {
      expected = graph_now();
      vs_check(expected->scans.size() == scans + 1, "the map grows by one scan");
      vs_check(expected->constraints.size() == links + (scans > 0), "the map grows by one constraint");
    }
    else
    {
      unchanged("nothing changes the map");
    }
    // with the chance to close loops
    const bool closes = mapping && !set.filter;
    one_round();
    if (closes) expected = graph_now();
    else unchanged("no loops are closed in a map that is not to change");
  }
  return 0;
}
