// property: C10
// mode: fp
// sources: src/graph.cpp src/scan.cpp
// cases: 4
// thorough_cases: 8
// bounds: graphs of 0 to 2 scans with 0 to 2 points and 0 to 2 constraints (thorough: 3 scans, 3 constraints); every id, pose, point, transform, information entry and constraint end an arbitrary 64-bit value (NaN and infinities included); saved after a pose was changed; loaded twice in either position mode; saved again from the loaded graph
// outside: larger graphs, failures of the file system, the file format itself (rosbag2 and the CDR encoding of messages)
#include <vsym_common.h>
#include <ndt_2d/graph.hpp>
using namespace ndt_2d;

struct Shadow
{
  std::vector<size_t> id;
  std::vector<std::vector<double>> scans;
  std::vector<std::vector<double>> cons;
  std::vector<size_t> begin, end;
  std::vector<char> sw;
};

static void compare(Graph & g, const Shadow & s)
{
  vs_check(g.scans.size() == s.id.size(), "number of scans");
  vs_check(g.constraints.size() == s.cons.size(), "number of constraints");
  for (size_t i = 0; i < s.id.size(); ++i)
  {
    vs_check(g.scans[i]->getId() == s.id[i], "scan id");
    Pose2d p = g.scans[i]->getPose();
    vs_check_same(p.x, s.scans[i][0], "scan x");
    vs_check_same(p.y, s.scans[i][1], "scan y");
    vs_check_same(p.theta, s.scans[i][2], "scan heading");
    std::vector<Point> pts = g.scans[i]->getPoints();
    vs_check(pts.size() * 2 + 3 == s.scans[i].size(), "number of points");
    for (size_t k = 0; k < pts.size(); ++k)
    {
      vs_check_same(pts[k].x, s.scans[i][3 + 2 * k], "point x");
      vs_check_same(pts[k].y, s.scans[i][4 + 2 * k], "point y");
    }
  }
  for (size_t i = 0; i < s.cons.size(); ++i)
  {
    auto & c = *g.constraints[i];
    vs_check(c.begin == s.begin[i], "constraint begin");
    vs_check(c.end == s.end[i], "constraint end");
    vs_check(c.switchable == s.sw[i], "constraint switchable");
    for (int k = 0; k < 3; ++k) vs_check_same(c.transform(k), s.cons[i][k], "constraint transform");
    for (int k = 0; k < 9; ++k) vs_check_same(c.information(k / 3, k % 3), s.cons[i][3 + k], "constraint information");
  }
}

int main()
{
  const int most = vs_case() >= 4 ? 3 : 2;
  Graph g(vs_case() & 1);
  Shadow s;
  int n = vs_int("scans", 0, most), m = vs_int("constraints", 0, most);
  for (int i = 0; i < n; ++i)
  {
    s.id.push_back(vs_symlong("id"));
    auto scan = std::make_shared<Scan>(s.id[i]);
    std::vector<Point> pts;
    int k = i == 1 ? 2 - vs_int("points", 0, 2) : vs_int("points", 0, 2);
    std::vector<double> v(3);
    for (int j = 0; j < k; ++j)
    {
      double x = vs_any("x"), y = vs_any("y");
      pts.push_back(Point(x, y));
      v.push_back(x); v.push_back(y);
    }
    scan->setPoints(pts);
    scan->setPose(Pose2d(1, 2, 3));
    if (vs_case() & 2) g.scans.push_back(scan);
    v[0] = vs_any("px"); v[1] = vs_any("py"); v[2] = vs_any("pt");
    scan->setPose(Pose2d(v[0], v[1], v[2]));
    if (!(vs_case() & 2)) g.scans.push_back(scan);
    s.scans.push_back(v);
  }
  for (int i = 0; i < m; ++i)
  {
    auto c = std::make_shared<Constraint>();
    s.begin.push_back(vs_symlong("begin")); s.end.push_back(vs_symlong("end")); s.sw.push_back(vs_bool("switchable"));
    std::vector<double> v;
    for (int k = 0; k < 12; ++k) v.push_back(vs_any("c"));
    c->begin = s.begin[i]; c->end = s.end[i]; c->switchable = s.sw[i];
    for (int k = 0; k < 3; ++k) c->transform(k) = v[k];
    for (int k = 0; k < 9; ++k) c->information(k / 3, k % 3) = v[3 + k];
    s.cons.push_back(v);
    g.constraints.push_back(c);
  }
  vs_check(g.save("a"), "saving reports success");
  compare(g, s);
  Graph one(vs_case() & 1, "a"), two(!(vs_case() & 1), "a");
  compare(one, s);
  compare(two, s);
  one.save("b");
  Graph three(true, "b");
  compare(three, s);
  vs_out("n", three.scans.size());
  return 0;
}
