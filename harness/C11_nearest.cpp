// property: C11
// sources: src/graph.cpp src/scan.cpp
// branch_timeout: 0.1
// cases: 8
// thorough_cases: 10
// bounds: 0 to 3 scans (thorough: 4) anywhere within 100 m, in both position modes, the query scan in the graph or not, any distance from 1 mm to 100 m (or the default of 10 m), limits from -1 to beyond the number of scans (for three scans: none and 2); distances are at least a micrometre from the given distance and from each other
// outside: larger graphs (nanoflann itself is replaced by its documented contract), ties
#include <vsym_common.h>
#include <ndt_2d/graph.hpp>
using namespace ndt_2d;

int main()
{
  const bool bary = vs_case() & 1;
  const int n = vs_case() / 2 >= 4 ? 4 : vs_case() / 2;
  Graph g(bary);
  std::vector<double> cx, cy;
  auto make = [&](size_t i)
  {
    auto s = std::make_shared<Scan>(100 + i);
    double x = vs_real("x", -100, 100), y = vs_real("y", -100, 100);
    // the other kind of position is far away from all of them
    double ox = 500 + 7.0 * i, oy = -300.0 - 3.0 * i;
    std::vector<Point> pts = {Point(bary ? ox - 1 : ox, oy), Point(bary ? ox + 1 : ox, oy)};
    s->setPoints(pts);
    s->setPose(bary ? Pose2d(x - ox, y - oy, 0) : Pose2d(x, y, 0));
    cx.push_back(x); cy.push_back(y);
    return s;
  };
  for (int i = 0; i < n; ++i) g.scans.push_back(make(i));
  size_t q = n;
  ScanPtr query;
  if (n && vs_bool("known")) { q = vs_int("q", 0, n - 1); query = g.scans[q]; }
  else query = make(n);
  const bool dflt = vs_bool("dflt");
  double dist = dflt ? 10.0 : vs_real("dist", 0.001, 100);
  int limit = dflt ? -1 : n > 2 ? vs_int("limit", 0, 1) * 2 : vs_int("limit", -1, n + 1);
  size_t count = limit > 0 && limit < n ? limit : n;
  std::vector<double> d2(n);
  std::vector<size_t> want;
  for (size_t i = 0; i < count; ++i)
  {
    d2[i] = (cx[i] - cx[q]) * (cx[i] - cx[q]) + (cy[i] - cy[q]) * (cy[i] - cy[q]);
    vs_assume(d2[i] < dist * dist - 1e-6 || d2[i] > dist * dist + 1e-6);
    for (size_t j = 0; j < i; ++j) vs_assume(d2[i] < d2[j] - 1e-6 || d2[i] > d2[j] + 1e-6);
    if (d2[i] > dist * dist) continue;
    size_t at = want.size();
    while (at > 0 && d2[i] < d2[want[at - 1]]) --at;
    want.insert(want.begin() + at, i);
  }
  std::vector<size_t> got = dflt ? g.findNearest(query) : g.findNearest(query, dist, limit);
  vs_check(got.size() == want.size(), "as many scans as lie within the distance");
  for (size_t i = 0; i < want.size(); ++i) vs_check(got[i] == want[i], "the right scans, nearest first");
  vs_check(g.scans.size() == static_cast<size_t>(n), "graph unchanged");
  for (int i = 0; i < n; ++i)
  {
    Pose2d p = bary ? g.scans[i]->getBarycenterPose() : g.scans[i]->getPose();
    vs_check_close(p.x, cx[i], 1e-9, "poses unchanged x");
    vs_check_close(p.y, cy[i], 1e-9, "poses unchanged y");
    vs_check(g.scans[i]->getId() == 100u + i, "ids unchanged");
  }
  vs_out("found", got.size());
  return 0;
}
