// property: C29
// sources: src/ndt_mapper.cpp src/graph.cpp src/scan.cpp src/constraint.cpp src/ceres_solver.cpp src/particle_filter.cpp src/motion_model.cpp
// cases: 3
// branch_timeout: 0.1
// bounds: a map of three scans at any places within 6 m of each other; mapping resumes with an initial pose anywhere within 20 m and any heading, nearer to one scan than to the others and not between 9.9 and 10.1 m from it; at start, after mapping was disabled and enabled again, and after a load
// outside: larger maps (see C11)
#include "mapper_common.h"

int main()
{
  const int c = vs_case();
  double x[3], y[3];
  ndt_2d::Graph g(false);
  for (int i = 0; i < 3; ++i)
  {
    auto s = std::make_shared<ndt_2d::Scan>(i);
    x[i] = i ? vs_real("sx", -3, 3) : 0;
    y[i] = i ? vs_real("sy", -3, 3) : 0;
    s->setPose(Pose2d(x[i], y[i], i * 0.5));
    s->setPoints({Point(1, 1)});
    g.scans.push_back(s);
  }
  g.save("map");
  set.mapping = true;
  if (c == 0) set.map_file = "map";
  auto node = start_node();
  tf.odom = half(7, 8, 0.25);
  if (c == 1)
  {
    configure(Config::Request::LOAD_FROM_FILE, "map");
    configure(Config::Request::DISABLE_MAPPING);
    configure(Config::Request::ENABLE_MAPPING);
  }
  if (c == 2)
  {
    give_scan(half(7, 8, 0.25));
    configure(Config::Request::LOAD_FROM_FILE, "map");
  }
  const HalfPose p = half(vs_real("px", -20, 20), vs_real("py", -20, 20), vs_angle("ph") / 2);
  // the scan that is nearest, by a margin
  const int k = vs_int("nearest", 0, 2);
  double d2[3];
  for (int i = 0; i < 3; ++i) d2[i] = (p.x - x[i]) * (p.x - x[i]) + (p.y - y[i]) * (p.y - y[i]);
  for (int i = 0; i < 3; ++i) if (i != k) vs_assume(d2[i] > d2[k] + 1e-3);
  vs_assume(d2[k] < 9.9 * 9.9 || d2[k] > 10.1 * 10.1);
  give_pose(p, 0.5);
  auto n = graph_now();
  if (d2[k] < 9.9 * 9.9)
  {
    vs_reach("near");
    vs_check(n->scans.size() == 4 && n->constraints.size() == 1, "the pose becomes part of the map");
    vs_check(n->scans[3]->getId() == 3, "ids are indices");
    same_pose(n->scans[3]->getPose(), whole(p), "where it was given");
    vs_check(n->constraints[0]->begin == static_cast<size_t>(k) && n->constraints[0]->end == 3, "linked to the nearest scan");
    const Pose2d b(x[k], y[k], k * 0.5);
    same_pose(compose(b, Pose2d(n->constraints[0]->transform(0), n->constraints[0]->transform(1), n->constraints[0]->transform(2))),
              whole(p), "linked by the relative pose");
  }
  else
  {
    vs_reach("far");
    vs_check(n->scans.size() == 3 && n->constraints.empty(), "refused far from the map, changing nothing");
    // and not localized either
    for (auto & m : matchers) m->asked.clear();
    give_scan(half(9, 8, 0.25));
    size_t asked = 0;
    for (auto & m : matchers) asked += m->asked.size();
    vs_check(asked == 0 && graph_now()->scans.size() == 3, "refused far from the map, changing nothing");
  }
  return 0;
}
