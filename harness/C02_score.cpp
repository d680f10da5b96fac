// property: C02
// sources: src/ndt_model.cpp src/scan.cpp
// cases: 4
// bounds: cells of 0-4 points (free in [-20, 20]), 5 or 6 coincident points, 5 points on a line of any direction, 5 points in a cross of any orientation and half axes 0.01 <= a <= 5, 0 <= b <= a (both sides of the 1:1000 limit); scored at any point within 20 m (line and cross: within 4 a)
// outside: other arrangements of points, cells of more points, rounding errors of the covariance
#include <vsym_common.h>
#include <ndt_2d/ndt_model.hpp>

static double score(ndt_2d::Cell & c, double x, double y)
{
  double s = c.score(Eigen::Vector2d(x, y));
  vs_check(s >= 0 && s <= 1, "score in [0, 1]");
  vs_out("score", s);
  return s;
}

int main()
{
  const int k = vs_case();
  ndt_2d::Cell c;
  double mx = vs_real("mx", -20, 20), my = vs_real("my", -20, 20);
  if (k == 0)
  {
    int n = vs_int("n", 0, 4);
    for (int i = 0; i < n; ++i) c.addPoint(Eigen::Vector2d(mx + (i % 2) * vs_real("x", -1, 1), my + i * 0.25));
    if (vs_bool("compute")) c.compute();
    vs_check(score(c, vs_real("qx", -20, 20), vs_real("qy", -20, 20)) == 0, "too few points: 0");
  }
  else if (k == 1)
  {
    int n = vs_int("n", 5, 6);
    for (int i = 0; i < n; ++i) c.addPoint(Eigen::Vector2d(mx, my));
    c.compute();
    score(c, vs_real("qx", -20, 20), vs_real("qy", -20, 20));
    vs_check_close(score(c, mx, my), 1, 1e-9, "coincident points: best at the points");
  }
  else
  {
    double phi = vs_angle("phi"), cs = std::cos(phi), sn = std::sin(phi), a = vs_real("a", 0.01, 5);
    double u = a * vs_real("u", -4, 4), v = a * vs_real("v", -4, 4);
    if (k == 2)
    {
      for (int i = -2; i <= 2; ++i) c.addPoint(Eigen::Vector2d(mx + i * a * cs, my + i * a * sn));
      c.compute();
      double large = 2.5 * a * a;
      score(c, mx + u * cs - v * sn, my + u * sn + v * cs);
      vs_check_close(score(c, mx - v * sn, my + v * cs), std::exp(-0.5 * v * v * 1000 / large), 1e-9, "line: precision across is 1000 / larger variance");
    }
    else
    {
      double b = vs_real("b", 0, 5);
      vs_assume(b <= a);
      c.addPoint(Eigen::Vector2d(mx, my));
      for (int i = -1; i <= 1; i += 2) c.addPoint(Eigen::Vector2d(mx + i * a * cs, my + i * a * sn));
      for (int i = -1; i <= 1; i += 2) c.addPoint(Eigen::Vector2d(mx - i * b * sn, my + i * b * cs));
      c.compute();
      double large = 0.5 * a * a, small = 0.5 * b * b;
      if (small >= 0.001 * large)
      {
        double s = score(c, mx + u * cs - v * sn, my + u * sn + v * cs);
        vs_check_close(s, std::exp(-0.5 * (u * u / large + v * v / small)), 1e-9, "exp(-d^2 / 2)");
      }
      else
      {
        score(c, mx + u * cs - v * sn, my + u * sn + v * cs);
        vs_check_close(score(c, mx - v * sn, my + v * cs), std::exp(-0.5 * v * v * 1000 / large), 1e-9, "thin: precision across is 1000 / larger variance");
      }
    }
  }
  return 0;
}
