// property: C26
// sources: src/ndt_mapper.cpp src/graph.cpp src/scan.cpp src/constraint.cpp src/ceres_solver.cpp src/particle_filter.cpp src/motion_model.cpp
// cases: 5
// bounds: messages of 0 to 3 readings, each any float (NaN, infinities of both signs, any size), with the maximum range taken from the message (any positive finite float) or from the parameter
// outside: more readings (they are treated one by one); readings below range_min, which the property does not mention
#include "mapper_common.h"

int main()
{
  const int c = vs_case();
  const int n = c < 4 ? c : 2;
  const float limit = vs_anyf("limit");
  vs_assume(limit > 0 && limit < 1e30f);
  if (c == 4) set.range = limit;
  tf.odom_at = [](int64_t) { return half(0, 0, 0); };   // the robot stands still
  auto node = start_node();
  auto m = laser(n);
  m->range_max = c == 4 ? 1000 : limit;
  m->angle_increment = 0;
  std::vector<float> valid;
  for (int i = 0; i < n; ++i)
  {
    const float r = vs_anyf("r");
    m->ranges[i] = r;
    if (std::isfinite(r) && r <= limit) { valid.push_back(r); vs_reach("valid"); }
  }
  give_scan(m);
  auto g = graph_now();
  vs_check(g->scans.size() == 1, "the first scan is used");
  const std::vector<Point> p = g->scans[0]->getPoints();
  vs_check(p.size() == valid.size(), "one point per valid reading");
  for (size_t i = 0; i < p.size(); ++i)
  {
    vs_check(p[i].x == valid[i], "its place is that of its reading");
    vs_check(p[i].y == 0, "its place is that of its reading");
  }
  return 0;
}
