// property: C15
// sources: src/occupancy_grid.cpp src/scan.cpp
// cases: 4
// thorough_cases: 8
// branch_timeout: 0.1
// bounds: two points seen from any place within 1 m of a given one with any heading, and a scan elsewhere; resolutions 0.5 m, 0.05 m and 0.3 m; the cell computed from the message's origin, width and resolution is the one that received the hit; points not within a micrometre of a cell border
// outside: more points
#include <vsym_common.h>
#include <ndt_2d/occupancy_grid.hpp>
using namespace ndt_2d;

int main()
{
  const int c = vs_case() & 3;
  const double res = c == 0 ? 0.5 : c == 1 ? 0.3 : c == 2 ? 0.05 : 0.1;
  const double span = vs_case() >= 4 ? 8 * res : 3 * res;
  auto s = std::make_shared<Scan>(3);
  std::vector<Point> pts = {Point(vs_bool("far") ? 3.2 * res : 0.7 * res, c & 1 ? 1.2 * res : -0.4 * res)};
  s->setPoints(pts);
  const double bx = c & 1 ? 7.77 * res : -5.3 * res, by = c & 2 ? 3.2 * res : -1.5 * res;
  const bool turn = vs_bool("turn");
  // free place and a heading out of many, or one place and any heading
  Pose2d q;
  if (turn) q = Pose2d(bx, by, vs_angle("t"));
  else q = Pose2d(bx + vs_real("x", 0, 1) * span, by + vs_real("y", 0, 1) * span, 0.4 * vs_int("k", -2, 2));
  s->setPose(q);
  auto o = std::make_shared<Scan>(1);
  std::vector<Point> p1 = {Point(0, 0.2 * res)};
  o->setPoints(p1);
  o->setPose(Pose2d(2.3 * res, 2.4 * res, 2));
  std::vector<ScanPtr> scans = {o, s};
  OccupancyGrid og(res, 0.0);   // every cell with a hit is occupied
  nav_msgs::msg::OccupancyGrid g;
  og.getMsg(scans, g);
  const double hx = q.x + pts[0].x * std::cos(q.theta) - pts[0].y * std::sin(q.theta);
  const double hy = q.y + pts[0].x * std::sin(q.theta) + pts[0].y * std::cos(q.theta);
  const double ox = g.info.origin.position.x, oy = g.info.origin.position.y;
  vs_check_close(g.info.resolution, res, 1e-6 * res, "resolution");
  vs_check(g.data.size() == static_cast<size_t>(g.info.width) * g.info.height, "data fits width and height");
  vs_check(hx > ox && hy > oy && hx < ox + g.info.width * res && hy < oy + g.info.height * res, "point inside the grid");
  int found = 0;
  bool point_found = false, other_found = false;
  for (unsigned y = 0; y < g.info.height; ++y) for (unsigned x = 0; x < g.info.width; ++x)
  {
    if (g.data[x + y * g.info.width] != 100) continue;
    ++found;
    const double lx = ox + x * res, ly = oy + y * res;
    bool of_point = hx > lx - 1e-6 && hx < lx + res + 1e-6 && hy > ly - 1e-6 && hy < ly + res + 1e-6;
    const double kx = 2.3 * res - 0.2 * res * std::sin(2.0), ky = 2.4 * res + 0.2 * res * std::cos(2.0);
    bool of_other = kx > lx - 1e-6 && kx < lx + res + 1e-6 && ky > ly - 1e-6 && ky < ly + res + 1e-6;
    point_found = point_found || of_point;
    other_found = other_found || of_other;
    vs_check(of_point || of_other, "occupied cells are those of the points");
  }
  vs_check(found <= 2 && point_found && other_found, "the points are in the map");
  vs_out("found", found);
  return 0;
}
