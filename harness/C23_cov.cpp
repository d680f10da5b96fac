// property: C23
// sources: src/scan_matcher_ndt.cpp src/ndt_model.cpp src/scan.cpp
// cases: 6
// branch_timeout: 0.1
// bounds: windows of 2x2x1, 3x3x1, 1x1x3 and 2x1x2 offsets (steps of x and y are the same) on a map of one cell; scans of one point (2x2x1: two) at any position within 5 m, or of any point within 5 m, with a sum of likelihoods of at least 1e-3; scans off the map, without points, and without a map
// outside: larger windows, more points, smaller likelihoods
#include "matcher_common.h"

static std::vector<double> offsets(double size, double res)
{
  std::vector<double> o;
  for (double v = -size; v < size; v += res) o.push_back(v);
  return o;
}

int main()
{
  const int c = vs_case();
  rclcpp::Node node("ndt");
  par = {400, 0.5, 0.25, 0.125, 0.125, 100};              // 2 x 2 x 1
  if (c == 1) par = {400, 0.5, 0.25, 0.125, 0.1875, 100};  // 3 x 3 x 1
  if (c == 2) par = {400, 0.25, 0.375, 0.5, 0.25, 100};    // 1 x 1 x 3
  if (c == 3) par = {400, 0.25, 0.25, 0.25, 0.25, 100};    // 2 x 2 x 2
  ndt_2d::ScanMatcherNDT m;
  m.initialize("m", &node, 100);
  if (c != 5) add(m, {make_scan(0, Pose2d(0, 0, 0), {Point(1, 1), Point(3, 1), Point(-1, 1), Point(1, 2), Point(1, 0)})});

  static const double T[6] = {2.5, 0.5, -1, 0.75, 1, 0};
  const bool any_pose = c != 1 && c != 2;
  Pose2d at(any_pose ? vs_real("px", -5, 5) : 1.5, any_pose ? vs_real("py", -5, 5) : -0.75, T[c]);
  std::vector<Point> p;
  if (c == 4) { if (vs_bool("points")) p.push_back(Point(900, 5)); }
  else if (any_pose) { p.push_back(Point(1.25, 0.5)); if (c == 0) p.push_back(Point(-1.75, 1.5)); }
  else p.push_back(Point(vs_real("x", -5, 5), vs_real("y", -5, 5)));
  ScanPtr scan = make_scan(1, at, p);
  Pose2d corr;
  Eigen::Matrix3d cov = Eigen::Matrix3d::Constant(NAN);
  const std::vector<double> lin = offsets(par.lin_size, par.lin_res), ang = offsets(par.ang_size, par.ang_res);
  double w = 0, u[3] = {0, 0, 0}, k[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}};
  if (c < 4)
  {
    for (double t : ang) for (double x : lin) for (double y : lin)
    {
      const double s = -m.scorePoints(p, Pose2d(at.x + x, at.y + y, at.theta + t)), o[3] = {x, y, t};
      w += s;
      for (int i = 0; i < 3; ++i) { u[i] += s * o[i]; for (int j = 0; j < 3; ++j) k[i][j] += s * o[i] * o[j]; }
    }
    vs_assume(w > 1e-3);
  }
  m.matchScan(scan, corr, cov);
  if (c >= 4)
  {
    for (int i = 0; i < 3; ++i)
    {
      for (int j = 0; j < 3; ++j)
      {
        vs_check(std::isfinite(cov(i, j)), "finite");
        vs_check(cov(i, j) == cov(j, i), "symmetric");
      }
      vs_check(cov(i, i) >= 0, "variances not negative");
    }
    vs_check(cov(0, 0) * cov(1, 1) - cov(0, 1) * cov(1, 0) >= 0 && cov.determinant() >= 0, "semi-definite");
    return 0;
  }
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
    {
      vs_check_close(cov(i, j), cov(j, i), 1e-12, "symmetric");
      vs_check_close(cov(i, j), k[i][j] / w - (u[i] / w) * (u[j] / w), 1e-6, "second moment minus product of means");
    }
  vs_out("xx", cov(0, 0));
  vs_out("xy", cov(0, 1));
  return 0;
}
