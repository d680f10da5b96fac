// property: C14
// sources: src/occupancy_grid.cpp src/scan.cpp
// cases: 8
// thorough_cases: 16
// branch_timeout: 0.1
// bounds: rays of up to 9 cells (thorough: 16) in every direction from a sensor anywhere in its cell, ending anywhere in a cell; resolution 0.5 m; rays of a heading within 0 and a quarter turn on top; a second ray ends in any cell of the first
// outside: longer rays, points within a nanometre of a cell border
#include <vsym_common.h>
#include <ndt_2d/occupancy_grid.hpp>
using namespace ndt_2d;

int main()
{
  const double res = 0.5;
  const int most = vs_case() >= 8 ? 16 : 9;
  // One octant per case; the sensor in the middle of a map which two far points span
  const int octant = vs_case() & 7;
  int a = vs_int("a", 0, most), b = vs_int("b", 0, a);
  int dx = octant & 1 ? b : a, dy = octant & 1 ? a : b;
  if (octant & 2) dx = -dx;
  if (octant & 4) dy = -dy;
  const double fx = vs_real("fx", 1e-9, 0.5 - 1e-9), fy = vs_real("fy", 1e-9, 0.5 - 1e-9);
  const double gx = vs_real("gx", 1e-9, 0.5 - 1e-9), gy = vs_real("gy", 1e-9, 0.5 - 1e-9);
  const double px = 10 + fx, py = -5 + fy, ex = 10 + dx * res + gx, ey = -5 + dy * res + gy;
  auto scan = std::make_shared<Scan>(0);
  std::vector<Point> pts;
  const bool turned = (a + b) & 1;   // heading of a quarter turn
  auto add = [&](double x, double y)
  {
    if (turned) pts.push_back(Point(y - py, -(x - px)));
    else pts.push_back(Point(x - px, y - py));
  };
  add(ex, ey);
  scan->setPose(Pose2d(px, py, turned ? M_PI / 2 : 0));
  scan->setPoints(pts);
  std::vector<ScanPtr> scans = {scan};
  OccupancyGrid og(res, 0.4);
  nav_msgs::msg::OccupancyGrid g;
  og.getMsg(scans, g);
  const int w = g.info.width, h = g.info.height;
  vs_check(g.data.size() == static_cast<size_t>(w) * h, "data fits width and height");
  const double ox = g.info.origin.position.x, oy = g.info.origin.position.y;
  const int sx = static_cast<int>(std::floor((10.25 - ox) / res)), sy = static_cast<int>(std::floor((-4.75 - oy) / res));
  const int tx = sx + dx, ty = sy + dy;
  vs_check(sx >= 0 && sy >= 0 && tx >= 0 && ty >= 0 && sx < w && sy < h && tx < w && ty < h, "both ends in the grid");
  auto at = [&](int x, int y) { return x < 0 || y < 0 || x >= w || y >= h ? -1 : static_cast<int>(g.data[x + y * w]); };
  vs_check(at(tx, ty) == 100, "the hit is in the cell of the point");
  vs_check((dx == 0 && dy == 0) || at(sx, sy) == 0, "the sensor's cell is passed");
  std::vector<std::pair<int, int>> line;
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x)
  {
    if (at(x, y) == -1) continue;
    line.push_back({x, y});
    vs_check(at(x, y) == 100 ? x == tx && y == ty : true, "a single hit");
    vs_check(x >= std::min(sx, tx) && x <= std::max(sx, tx) && y >= std::min(sy, ty) && y <= std::max(sy, ty), "nothing beyond the ends");
    int cross = dx * (y - sy) - dy * (x - sx);
    vs_check(cross * cross <= dx * dx + dy * dy, "at most one cell from the straight line");
  }
  // gap-free: every cell but the last has a neighbour which is nearer to the end
  for (auto & c : line)
  {
    if (c.first == tx && c.second == ty) continue;
    bool next = false;
    int d = std::abs(tx - c.first) + std::abs(ty - c.second);
    for (auto & o : line)
      if (std::abs(o.first - c.first) <= 1 && std::abs(o.second - c.second) <= 1 && std::abs(tx - o.first) + std::abs(ty - o.second) < d) next = true;
    vs_check(next, "no gap");
  }
  // a second ray that ends in a cell passed once: half of what touches it are hits
  if (line.size() > 1)
  {
    auto c = line[vs_int("second", 0, static_cast<int>(line.size()) - 1)];
    if (c.first != tx || c.second != ty)
    {
      add(10.25 + (c.first - sx) * res, -4.75 + (c.second - sy) * res);
      scan->setPoints(pts);
      og.getMsg(scans, g);
      vs_check(at(c.first, c.second) == 100, "passed once");
      if (c.first != sx || c.second != sy) vs_check(at(sx, sy) == 0, "passed only");
    }
  }
  vs_out("cells", line.size());
  return 0;
}
