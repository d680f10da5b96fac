// property: C03
// sources: src/ndt_model.cpp src/scan.cpp
// cases: 6
// bounds: grids of 2 m x 1 m with 0.5 m cells and of 0.9 m x 0.6 m with 0.3 m cells, origin anywhere within 100 m; one group of five points and one query, of which x (or y) is NaN, infinite or anywhere within 1000 km while the other coordinate is in any row of the grid, or both are among 1e10, 1e19, 1e300 and a place inside
// outside: points closer to a cell border than rounding error, grids of other sizes
#include <vsym_common.h>
#include <limits>
#include <ndt_2d/ndt_model.hpp>

// The coordinate that is free in this case, the other one in the middle of a cell
static double coord(const char * name, bool free_one, double origin, double cs, int cells)
{
  const int k = vs_case() >> 1;
  if (k == 2)
  {
    static const double huge[] = {1e10, -1e10, 1e19, -1e19, 1e300, -1e300};
    int i = vs_int("huge", 0, 6);
    return i ? huge[i - 1] : origin + cs * 0.4;
  }
  return free_one ? vs_any(name) : origin + (vs_int("row", 0, cells - 1) + 0.4) * cs;
}

// Cell of a coordinate; -1 outside, -2 in the border zone that may or may not belong to the grid
static int cell(double v, double origin, double size, double cs)
{
  if (!std::isfinite(v) || v < origin || v >= origin + size + cs) return -1;
  if (v > origin + size) return -2;
  int k = 0;
  while (v >= origin + (k + 1) * cs) ++k;
  return k;
}

static void clear_of_borders(double v, int k, double o, double size, double cs, double margin)
{
  if (k >= 0) { double f = v - (o + k * cs); vs_assume(f > margin && f < cs - margin); }
  else if (k == -1 && std::isfinite(v)) vs_assume(v < o - margin || v > o + size + cs + margin);
}

int main()
{
  const double cs = vs_case() & 1 ? 0.3 : 0.5, sx = vs_case() & 1 ? 0.9 : 2.0, sy = vs_case() & 1 ? 0.6 : 1.0;
  const double ox = vs_real("ox", -100, 100), oy = vs_real("oy", -100, 100);
  ndt_2d::NDT ndt(cs, sx, sy, ox, oy);
  const bool xfree = vs_case() >> 1 == 0;
  const int nx = static_cast<int>(sx / cs + 0.5), ny = static_cast<int>(sy / cs + 0.5);
  double bx = coord("bx", xfree, ox, cs, nx), by = coord("by", !xfree, oy, cs, ny);
  int cx = cell(bx, ox, sx, cs), cy = cell(by, oy, sy, cs);
  vs_assume(cx != -2 && cy != -2);
  const double d = cs / 16;
  clear_of_borders(bx, cx, ox, sx, cs, cs / 8);
  clear_of_borders(by, cy, oy, sy, cs, cs / 8);
  auto scan = std::make_shared<ndt_2d::Scan>(0);
  std::vector<ndt_2d::Point> pts = {{bx, by}, {bx + d, by}, {bx - d, by}, {bx, by + d}, {bx, by - d}};
  scan->setPoints(pts);
  scan->setPose(ndt_2d::Pose2d(0, 0, 0));
  ndt.addScan(scan);
  ndt.compute();
  double qx = coord("qx", xfree, ox, cs, nx), qy = coord("qy", !xfree, oy, cs, ny);
  int kx = cell(qx, ox, sx, cs), ky = cell(qy, oy, sy, cs);
  clear_of_borders(qx, kx, ox, sx, cs, 1e-6);
  clear_of_borders(qy, ky, oy, sy, cs, 1e-6);
  double s = ndt.likelihood(Eigen::Vector2d(qx, qy));
  vs_out("s", s);
  if (kx == -1 || ky == -1) vs_check(s == 0, "outside scores 0");
  else if (kx >= 0 && ky >= 0)
  {
    if (cx >= 0 && cy >= 0 && cx == kx && cy == ky) vs_check(s > 0, "its own cell scores");
    else vs_check(s == 0, "other cells are not affected");
  }
  return 0;
}
