// property: C15
// sources: src/occupancy_grid.cpp src/scan.cpp
// cases: 3
// branch_timeout: 0.1
// bounds: up to 4 rays (in one or two scans, from both sides) along a row of six cells of 0.5 m, each ending anywhere in any cell, with every threshold from 0 to 1 (not within 1e-9 of a fraction that occurs), rendered twice
// outside: more rays per cell
#include <vsym_common.h>
#include <ndt_2d/occupancy_grid.hpp>
using namespace ndt_2d;

int main()
{
  const int rays = vs_case() + 2;
  const double thresh = vs_real("thresh", 0, 1), f = vs_real("f", 1e-6, 0.5 - 1e-6);
  std::vector<int> hit(6, 0), pass(6, 0);
  std::vector<Point> right, left;
  int least = 0;
  for (int i = 0; i < rays; ++i)
  {
    int e = vs_int("end", least, 5);
    least = e;   // the order of the rays does not matter
    bool from_right = i % 2 && vs_bool("from_right");
    if (from_right)
    {
      left.push_back(Point(2.75 - (e * 0.5 + f), 0));   // seen from x = 2.75, heading -x
      for (int k = 5; k > e; --k) ++pass[k];
    }
    else
    {
      right.push_back(Point(e * 0.5 + f - 0.25, 0));    // seen from x = 0.25
      for (int k = 0; k < e; ++k) ++pass[k];
    }
    ++hit[e];
  }
  std::vector<ScanPtr> scans;
  for (int i = 0; i < 2; ++i)
  {
    auto & pts = i ? left : right;
    if (pts.empty()) continue;
    auto s = std::make_shared<Scan>(i);
    s->setPoints(pts);
    s->setPose(i ? Pose2d(2.75, 0.25, M_PI) : Pose2d(0.25, 0.25, 0));
    scans.push_back(s);
  }
  OccupancyGrid og(0.5, thresh);
  for (int round = 0; round < 2; ++round)
  {
    nav_msgs::msg::OccupancyGrid g;
    if (round) g.data.assign(7, 55);
    og.getMsg(scans, g);
    vs_check_close(g.info.resolution, 0.5, 1e-6, "resolution");
    vs_check(g.data.size() == static_cast<size_t>(g.info.width) * g.info.height, "data fits width and height");
    vs_check_same(g.info.origin.orientation.w, 1.0, "origin is not rotated");
    vs_check(g.info.origin.orientation.z == 0 && g.info.origin.orientation.x == 0 && g.info.origin.orientation.y == 0, "origin is not rotated");
    for (unsigned y = 0; y < g.info.height; ++y) for (unsigned x = 0; x < g.info.width; ++x)
    {
      // which of the six cells is it?
      double cx = g.info.origin.position.x + (x + 0.5) * 0.5, cy = g.info.origin.position.y + (y + 0.5) * 0.5;
      int k = cy > 0 && cy < 0.5 && cx > 0 && cx < 3 ? static_cast<int>(cx / 0.5) : -1;
      int v = g.data[x + y * g.info.width];
      if (k < 0 || hit[k] + pass[k] == 0) { vs_check(v == -1, "untouched cells are unknown"); continue; }
      double frac = static_cast<double>(hit[k]) / (hit[k] + pass[k]);
      if (hit[k] && pass[k]) vs_assume(thresh < frac - 1e-9 || thresh > frac + 1e-9);
      if (frac > thresh) vs_check(v == 100, "occupied");
      else vs_check(v == 0, "free");
    }
  }
  return 0;
}
