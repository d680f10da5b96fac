// property: C13
// sources: src/occupancy_grid.cpp src/scan.cpp
// cases: 12
// branch_timeout: 0.1
// bounds: a rendering of no, one or two scans, then one of: moving the first or the last scan, adding a scan, replacing all scans by as many, fewer or no others, and a second rendering; the new scan anywhere within 1.3 m (in x or y) of the origin or of a place 40 cells away, any heading out of five, points up to 5 m away or none; resolutions 1 m and 0.3 m
// outside: longer histories, points that are not finite
#include <vsym_common.h>
#include <ndt_2d/occupancy_grid.hpp>
using namespace ndt_2d;

static double res;

static ScanPtr make(size_t id, double x, double y, double t, int shape)
{
  auto s = std::make_shared<Scan>(id);
  std::vector<Point> p;
  if (shape == 1) p = {Point(5, 0.3), Point(-0.4, 2)};
  if (shape == 2) p = {Point(-3.3, -3.7)};
  s->setPoints(p);
  s->setPose(Pose2d(x, y, t));
  return s;
}

static void render(OccupancyGrid & og, std::vector<ScanPtr> & scans)
{
  nav_msgs::msg::OccupancyGrid g;
  og.getMsg(scans, g);
  const double ox = g.info.origin.position.x, oy = g.info.origin.position.y;
  vs_check(g.data.size() == static_cast<size_t>(g.info.width) * g.info.height, "data fits width and height");
  for (auto & s : scans)
  {
    Pose2d q = s->getPose();
    std::vector<Point> pts = s->getPoints();
    if (pts.empty()) continue;
    pts.push_back(Point(0, 0));
    for (auto & p : pts)
    {
      double x = q.x + p.x * std::cos(q.theta) - p.y * std::sin(q.theta), y = q.y + p.x * std::sin(q.theta) + p.y * std::cos(q.theta);
      vs_check(x >= ox && y >= oy, "grid begins before every point and sensor");
      vs_check(x < ox + g.info.width * res && y < oy + g.info.height * res, "grid ends after every point and sensor");
    }
  }
  vs_out("w", g.info.width);
}

int main()
{
  res = vs_case() & 1 ? 0.3 : 1.0;
  const int op = vs_case() / 2;
  OccupancyGrid og(res, 0.25);
  std::vector<ScanPtr> scans;
  if (vs_bool("some")) scans.push_back(make(0, 1.2, 0.7, 0.5, 1));
  if (!scans.empty() && vs_bool("two")) scans.push_back(make(1, -2.2, 3.7, -1.5, 2));
  render(og, scans);
  // far from the origin, too
  const double c = vs_bool("far") ? (res < 1 ? -9 : 40) : 0;
  const bool along = vs_bool("along");
  double x = along ? c + vs_real("x", -1.3, 1.3) : c - 3.2, y = along ? 2.7 : vs_real("y", -1.3, 1.3);
  static const double heading[] = {0, 0.7, 2.1, -1.6, -3};
  const int k = vs_int("heading", 0, 4);
  double t = heading[k];
  int shape = op < 2 ? 1 : (k + along + 1) % 3;
  if (op == 0 || op == 1)
  {
    vs_assume(!scans.empty());
    scans[op ? scans.size() - 1 : 0]->setPose(Pose2d(x, y, t));
  }
  else if (op == 2) scans.push_back(make(9, x, y, t, shape));
  else if (op == 3)
  {
    vs_assume(!scans.empty());
    size_t n = scans.size();
    scans.clear();
    for (size_t i = 0; i + 1 < n; ++i) scans.push_back(make(20 + i, -c, 1, 1, 2));
    scans.push_back(make(30, x, y, t, shape));
  }
  else if (op == 4)
  {
    vs_assume(scans.size() == 2);
    scans.clear();
    scans.push_back(make(40, x, y, t, shape));
  }
  else
  {
    vs_assume(scans.size() == 2);
    scans[0]->setPose(Pose2d(x, y, t));
    render(og, scans);
    scans.clear();
  }
  render(og, scans);
  return 0;
}
